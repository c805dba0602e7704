From 4cb0405f87d122d2040d9d46ffd3ef859899af04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:40 +0000
Subject: [PATCH 01/12] fix: IBM zeros, unnormalised fractions and tiny numbers
 convert to the right float

A zero IBM fraction gave 0.5, an unnormalised fraction with more than three
leading zeros lost its leading bit, a shift by 32 bits or more was undefined,
and rounding a denormal up to the smallest regular number gave half of it.
---
 src/utils/encoding/number_encoding.cc | 36 ++++++++++++++-------------
 1 file changed, 19 insertions(+), 17 deletions(-)

diff --git a/src/utils/encoding/number_encoding.cc b/src/utils/encoding/number_encoding.cc
index 0eaee29..2c40ee5 100644
--- a/src/utils/encoding/number_encoding.cc
+++ b/src/utils/encoding/number_encoding.cc
@@ -73,18 +73,12 @@ Float_components from_IBM(
     // bits of the fraction can be zero.
     // We therefore, need to shift it left by 8 bits, plus those leading zeros.
     //
-    // We use a sneaky trick here: we use the 3 rightmost bits of the IBM
-    // fraction as a lookup for a table listing the offsets. Interpreted as an
-    // integer, these have the values:
-    //  000 -> 0  ---> needs offset of 3
-    //  001 -> 1  ---> needs offset of 2
-    //  010 -> 2  ---> needs offset of 1
-    //  011 -> 3  ---> needs offset of 1
-    // and so on.
-    //
-    const uint32_t offsets[]         = {3, 2, 1, 1, 0, 0, 0, 0};
-    const uint32_t leading_frac_bits = frac >> 21;
-    const int32_t shift              = offsets[leading_frac_bits];
+    // Numbers that are not normalized can have more leading zeros than that, so
+    // we count them.
+    int32_t shift = 0;
+    while (((frac << shift) & 0x00800000) == 0) {
+        shift++;
+    }
 
     const uint32_t shifted_frac = frac << (8 + shift);
 
@@ -212,15 +206,23 @@ float to_float(Float_components components)
     // biasing. In this case, the negative value represents the right shift
     // needed to represent the number.
     //
-    // Note: this will catch +/- 0 as well, but the frac is 0, so this shift
-    //       will make no difference.
+    // Note: +/- 0 has a frac of 0 and needs a zero exponent as well.
     //
-    if (exp <= 0) {
+    if (frac == 0) {
+        exp = 0;
+    }
+    else if (exp <= 0) {
         // denorm numbers get an extra shift of 1, because they're in the
         // form 0.bbbb... rather than 1.bbbb... for regular numbers.
+        const uint32_t shift = -exp + 1;
+
+        // frac has 24 bits, so anything shifted further than 25 bits is less
+        // than half of the smallest denorm number.
+        frac = (shift > 25 ? 0 : rshift_with_rounding(frac, shift));
 
-        frac = rshift_with_rounding(frac, -exp + 1);
-        exp  = 0;
+        // Rounding up can give the smallest regular number, which has an
+        // exponent of 1.
+        exp = (frac >> 23);
     }
 
     // Overflow
-- 
2.43.0


From 3cd39c67a1971ce6c78e8f61dbf65d5163ad9c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:40 +0000
Subject: [PATCH 02/12] fix: characters without an equivalent convert to SUB

The lookup used the entry found by lower_bound even when it is that of a
different character.
---
 src/utils/encoding/character_encoding.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/utils/encoding/character_encoding.cc b/src/utils/encoding/character_encoding.cc
index a9afe29..da4a6c8 100644
--- a/src/utils/encoding/character_encoding.cc
+++ b/src/utils/encoding/character_encoding.cc
@@ -185,7 +185,8 @@ unsigned char to_ASCII_from_EBCDIC(unsigned char ebcdic_char)
       std::begin(ebcdic_sorted_array), std::end(ebcdic_sorted_array),
       ebcdic_char, compare_ebcdic);
 
-    if (ebcdic_char_it == std::end(ebcdic_sorted_array)) {
+    if (ebcdic_char_it == std::end(ebcdic_sorted_array)
+        || ebcdic_char_it->ebcdic != ebcdic_char) {
         return char_sub.ascii;
     }
     return ebcdic_char_it->ascii;
@@ -203,7 +204,8 @@ unsigned char to_EBCDIC_from_ASCII(unsigned char ascii_char)
       std::begin(ascii_sorted_array), std::end(ascii_sorted_array), ascii_char,
       compare_ascii);
 
-    if (ascii_char_it == std::end(ascii_sorted_array)) {
+    if (ascii_char_it == std::end(ascii_sorted_array)
+        || ascii_char_it->ascii != ascii_char) {
         return char_sub.ebcdic;
     }
     return ascii_char_it->ebcdic;
-- 
2.43.0


From 957250e83a8e70fc942bced33ef15c4df6d4ff9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:40 +0000
Subject: [PATCH 03/12] fix: looking up a missing rule entry does not add a
 null entry

Rule::getEntry inserted a null pointer in the map, which was dereferenced by
the next loop over the rules.
---
 src/Rule.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Rule.cc b/src/Rule.cc
index ad9ac23..25c1992 100644
--- a/src/Rule.cc
+++ b/src/Rule.cc
@@ -357,7 +357,8 @@ void Rule::rmRule(Meta m)
 
 RuleEntry* Rule::getEntry(Meta entry)
 {
-    return translate[entry];
+    auto iter = translate.find(entry);
+    return (iter != translate.end() ? iter->second : nullptr);
 }
 
 size_t Rule::memUsage(void) const
-- 
2.43.0


From 016fd88cb4814e1cd0a11b026ceb9a5327f84c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:40 +0000
Subject: [PATCH 04/12] fix: IBM traces are converted from the bytes read from
 the file

The bytes of the sample converted to a double were used.
---
 src/ReadSEGY.cc | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/ReadSEGY.cc b/src/ReadSEGY.cc
index 4a76b1d..91bbf37 100644
--- a/src/ReadSEGY.cc
+++ b/src/ReadSEGY.cc
@@ -185,10 +185,8 @@ void readTraceT(
         // Convert trace values from SEGY floating point format to host format
         if (number_format == SEGYNumberFormat::IBM) {
             for (size_t i = 0; i < ns * sz; i++) {
-                const exseis::utils::Floating_point be_trc_i = trc[i];
-
                 const unsigned char* be_trc_i_bytes =
-                  reinterpret_cast<const unsigned char*>(&be_trc_i);
+                  &tbuf[i * sizeof(exseis::utils::Trace_value)];
 
                 std::array<unsigned char, 4> be_bytes_array = {
                   {be_trc_i_bytes[0], be_trc_i_bytes[1], be_trc_i_bytes[2],
-- 
2.43.0


From 5ec419955b0b16c1fda64ab9847c063f1088e379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:40 +0000
Subject: [PATCH 05/12] fix: reading from beyond the last trace reads nothing

The number of traces left underflowed when the offset was beyond the end.
---
 src/ReadSEGY.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ReadSEGY.cc b/src/ReadSEGY.cc
index 91bbf37..ab12fe8 100644
--- a/src/ReadSEGY.cc
+++ b/src/ReadSEGY.cc
@@ -214,7 +214,8 @@ void ReadSEGY::readTrace(
   Param* prm,
   const size_t skip) const
 {
-    size_t ntz = ((sz == 0) ? sz : (offset + sz > nt ? nt - offset : sz));
+    // Only the traces which are in the file can be read.
+    size_t ntz = (offset >= nt ? 0LU : std::min(sz, nt - offset));
     if (offset >= nt && sz != 0) {
         // Nothing to be read.
         piol->log->record(
-- 
2.43.0


From c3803d4f4519755128d450890202cead79acc4ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:40 +0000
Subject: [PATCH 06/12] fix: non-monotonic reads of no traces, or without
 parameters

The first entry of an empty list was used, and the rules of the parameter
structure were taken from PIOL_PARAM_NULL.
---
 src/ReadSEGY.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/ReadSEGY.cc b/src/ReadSEGY.cc
index ab12fe8..6a89de8 100644
--- a/src/ReadSEGY.cc
+++ b/src/ReadSEGY.cc
@@ -249,14 +249,16 @@ void ReadSEGY::readTraceNonMonotonic(
     // Sort the initial offset and make a new offset without duplicates
     auto idx = getSortIndex(sz, offset);
     std::vector<size_t> nodups;
-    nodups.push_back(offset[idx[0]]);
-    for (size_t j = 1; j < sz; j++) {
-        if (offset[idx[j - 1]] != offset[idx[j]]) {
+    for (size_t j = 0; j < sz; j++) {
+        if (j == 0 || offset[idx[j - 1]] != offset[idx[j]]) {
             nodups.push_back(offset[idx[j]]);
         }
     }
 
-    Param sprm(prm->r, (prm != PIOL_PARAM_NULL ? nodups.size() : 0LU));
+    // There are no rules to follow if no parameters are to be read.
+    Param sprm(
+      (prm != PIOL_PARAM_NULL ? prm->r : std::make_shared<Rule>(true, false)),
+      (prm != PIOL_PARAM_NULL ? nodups.size() : 0LU));
     std::vector<exseis::utils::Trace_value> strc(
       ns * (trc != TRACE_NULL ? nodups.size() : 0LU));
 
-- 
2.43.0


From d1ba6b98420ff3f7de99c9f01747478a481c1221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:11 +0000
Subject: [PATCH 07/12] fix: taper leaves a signal without a non-zero sample
 alone

The search for the first non-zero sample returned the end of the signal,
which was then read, and the recursion did not end.
---
 src/utils/signal_processing/taper.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/utils/signal_processing/taper.cc b/src/utils/signal_processing/taper.cc
index 72fd85c..dc01f39 100644
--- a/src/utils/signal_processing/taper.cc
+++ b/src/utils/signal_processing/taper.cc
@@ -31,6 +31,11 @@ void taper(
 
         auto* truncated_signal =
           std::find_if(signal, signal + signal_size, non_zero);
+
+        // There is nothing to taper if the whole signal is muted.
+        if (truncated_signal == signal + signal_size) {
+            return;
+        }
         assert(truncated_signal[0] != 0);
 
 
-- 
2.43.0


From b5f2ac7a89c499fd86410eeec8895a84fe64efcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:05 +0000
Subject: [PATCH 08/12] fix: CommunicatorMPI::offset uses its own communicator

The prefix sum was taken over MPI_COMM_WORLD, whatever communicator the
object was made with.
---
 src/CommunicatorMPI.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/CommunicatorMPI.cc b/src/CommunicatorMPI.cc
index 6427fd7..0be63b6 100644
--- a/src/CommunicatorMPI.cc
+++ b/src/CommunicatorMPI.cc
@@ -226,8 +226,7 @@ size_t CommunicatorMPI::offset(size_t val)
 {
     size_t offset = 0LU;
     MPI_Exscan(
-      &val, &offset, 1LU, exseis::utils::MPI_type<size_t>(), MPI_SUM,
-      MPI_COMM_WORLD);
+      &val, &offset, 1LU, exseis::utils::MPI_type<size_t>(), MPI_SUM, comm);
     return (rank == 0 ? 0LU : offset);
 }
 
-- 
2.43.0


From 34f26d9c0ff18ebf74e8e38dd9e588895d6d24b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:05 +0000
Subject: [PATCH 09/12] fix: size of the windows and bounds of the MPI
 distributed vector

The window was allocated with one byte per element instead of sizeof(T),
the element one past the end was accepted, and the assertions refused rank 0.
---
 include/ExSeisDat/utils/mpi/MPI_Distributed_vector.hh | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/ExSeisDat/utils/mpi/MPI_Distributed_vector.hh b/include/ExSeisDat/utils/mpi/MPI_Distributed_vector.hh
index f9b88c3..772527b 100644
--- a/include/ExSeisDat/utils/mpi/MPI_Distributed_vector.hh
+++ b/include/ExSeisDat/utils/mpi/MPI_Distributed_vector.hh
@@ -88,7 +88,8 @@ MPI_Distributed_vector<T>::Model::Model(MPI_Aint global_size, MPI_Comm comm) :
       block_decomposition(global_size, num_ranks, rank);
     const size_t local_size = decomposition.local_size;
 
-    MPI_Win_allocate(local_size, sizeof(T), MPI_INFO_NULL, comm, &data, &win);
+    MPI_Win_allocate(
+      local_size * sizeof(T), sizeof(T), MPI_INFO_NULL, comm, &data, &win);
 }
 
 template<typename T>
@@ -101,7 +102,7 @@ MPI_Distributed_vector<T>::Model::~Model()
 template<typename T>
 void MPI_Distributed_vector<T>::Model::set(size_t i, const T& val)
 {
-    if (i > global_size) {
+    if (i >= global_size) {
         return;
     }
 
@@ -115,7 +116,7 @@ void MPI_Distributed_vector<T>::Model::set(size_t i, const T& val)
       block_decomposition_location(global_size, num_ranks, i);
 
     // Set the value locally or remotely.
-    assert(rank > 0);
+    assert(rank >= 0);
     if (location.rank == static_cast<size_t>(rank)) {
         data[location.local_index] = val;
     }
@@ -135,7 +136,7 @@ void MPI_Distributed_vector<T>::Model::set(size_t i, const T& val)
 template<typename T>
 T MPI_Distributed_vector<T>::Model::get(size_t i) const
 {
-    if (i > global_size) {
+    if (i >= global_size) {
         return T();
     }
 
@@ -148,7 +149,7 @@ T MPI_Distributed_vector<T>::Model::get(size_t i) const
     auto location = block_decomposition_location(global_size, num_ranks, i);
 
     // Get the value locally or remotely.
-    assert(rank > 0);
+    assert(rank >= 0);
     if (location.rank == static_cast<size_t>(rank)) {
         return data[location.local_index];
     }
-- 
2.43.0


From b1558310bbccf678c451f7be6988273e1d776047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:05 +0000
Subject: [PATCH 10/12] fix: list I/O reports failures and keeps in step with
 the other ranks

The error code of the read or write itself was dropped, and after an error a
rank left the loop of collective calls that the other ranks wait in.
---
 src/DataMPIIO.cc | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/DataMPIIO.cc b/src/DataMPIIO.cc
index 1730e95..44be0c0 100644
--- a/src/DataMPIIO.cc
+++ b/src/DataMPIIO.cc
@@ -160,18 +160,17 @@ int iol(
         return err;
     }
 
-    fn(file, 0, d, chunk * bsz, MPI_CHAR, stat);
-    if (err != MPI_SUCCESS) {
-        return err;
-    }
+    const int io_err = fn(file, 0, d, chunk * bsz, MPI_CHAR, stat);
 
-    // Reset the view.
+    // Reset the view, also when the I/O failed.
     err = MPI_File_set_view(file, 0, MPI_CHAR, MPI_CHAR, "native", info);
     if (err != MPI_SUCCESS) {
         return err;
     }
 
-    return MPI_Type_free(&type);
+    err = MPI_Type_free(&type);
+
+    return (io_err != MPI_SUCCESS ? io_err : err);
 }
 
 /////////////////////////////    Class functions    ////////////////////////////
@@ -507,14 +506,13 @@ void DataMPIIO::listIO(
           fn, file, info, bsz, chunk,
           reinterpret_cast<const MPI_Aint*>(&offset[i]), &d[i * bsz], &stat);
 
-        // Log and break on failure
+        // Log the failure, but go on: the other ranks expect this rank to take
+        // part in the remaining collective calls.
         if (err != MPI_SUCCESS) {
             log_->record(
               name_, Logger::Layer::Data, Logger::Status::Error,
               msg + exseis::utils::MPI_error_to_string(err, &stat),
               PIOL_VERBOSITY_NONE);
-
-            break;
         }
     }
 
-- 
2.43.0


From 3ca3df2cd0864c88e8c6bd156017d414cdf3a3c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:48 +0000
Subject: [PATCH 11/12] fix: scalar of a coordinate that only fits after
 rounding, or that shares its scalar

---
 src/segy_utils.cc | 55 +++++++++++++++++++++++++++++++++++------------
 1 file changed, 41 insertions(+), 14 deletions(-)

diff --git a/src/segy_utils.cc b/src/segy_utils.cc
index a501e12..ed5392f 100644
--- a/src/segy_utils.cc
+++ b/src/segy_utils.cc
@@ -13,6 +13,27 @@ namespace exseis {
 namespace PIOL {
 namespace SEGY_utils {
 
+/*! Does a value, rounded, fit the 32 bits a trace header has for it?
+ *  @param[in] val The (scaled) value
+ *  @return True if it can be stored.
+ */
+static bool fits(exseis::utils::Floating_point val)
+{
+    return val > -2147483648.5 && val < 2147483647.5;
+}
+
+/*! The next scalar with which larger values can be stored.
+ *  @param[in] scal The scalar
+ *  @return The scalar that is ten times as large.
+ */
+static int16_t coarser(int16_t scal)
+{
+    if (scal < -10) {
+        return scal / 10;
+    }
+    return (scal < -1 ? 1 : (scal <= 1 ? 10 : scal * 10));
+}
+
 void insertParam(
   size_t sz, const Param* prm, unsigned char* buf, size_t stride, size_t skip)
 {
@@ -103,6 +124,17 @@ void insertParam(
             }
         }
 
+        // The scalar that preserves the most digits of one value can be too
+        // fine for another value which shares it.
+        for (const auto* v : rule) {
+            const auto val = prm->f[(i + skip) * r->numFloat + v->num];
+            auto& s        = scal[static_cast<Tr>(v->scalLoc)];
+
+            while (fits(val / 10000) && !fits(val / parse_scalar(s))) {
+                s = coarser(s);
+            }
+        }
+
         // Finish off the floats. Floats are inherently annoying in SEG-Y
         for (const auto& s : scal) {
             const auto be = to_big_endian(s.second);
@@ -224,19 +256,13 @@ int16_t find_scalar(exseis::utils::Floating_point val)
 
     // First we need to determine what scale is required to store the
     // biggest decimal value of the int.
-    exseis::utils::Integer integer_part = exseis::utils::Integer(val);
-    int32_t int_part                    = integer_part;
-
-    if (integer_part != int_part) {
+    if (!fits(val)) {
         // Starting with the smallest scale factor, see what is the smallest
-        // scale we can apply and still hold the integer portion.
+        // scale we can apply and still hold the rounded value.
         // We drop as much precision as it takes to store the most significant
         // digit.
         for (int32_t scal = 10; scal <= tenk; scal *= 10) {
-            exseis::utils::Integer v = integer_part / scal;
-            int32_t iv               = v;
-
-            if (v == iv) {
+            if (fits(val / scal)) {
                 return scal;
             }
         }
@@ -244,6 +270,8 @@ int16_t find_scalar(exseis::utils::Floating_point val)
         return 0;
     }
     else {
+        exseis::utils::Integer integer_part = exseis::utils::Integer(val);
+
         // Get the first four digits
         exseis::utils::Integer digits =
           std::llround(val * exseis::utils::Floating_point(tenk))
@@ -260,11 +288,10 @@ int16_t find_scalar(exseis::utils::Floating_point val)
                     exseis::utils::Floating_point scal =
                       parse_scalar(scaleFactor);
 
-                    // int32_t t = exseis::utils::Integer(val / scal) - digits;
-                    int32_t t = std::lround(val / scal);
-                    t /= -scaleFactor;
-
-                    if (t == integer_part) {
+                    if (
+                      fits(val / scal)
+                      && std::lround(val / scal) / -scaleFactor
+                           == integer_part) {
                         return scaleFactor;
                     }
                 }
-- 
2.43.0


From aff4c25ccd1af85251cf847b7ca7e25282e06557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:48 +0000
Subject: [PATCH 12/12] fix: offset and extent of a rule of part of the trace
 header

---
 src/Rule.cc       | 14 ++++++++++++--
 src/segy_utils.cc |  3 ++-
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/Rule.cc b/src/Rule.cc
index 25c1992..63b223f 100644
--- a/src/Rule.cc
+++ b/src/Rule.cc
@@ -244,11 +244,19 @@ size_t Rule::extent(void)
 
         for (const auto r : translate) {
             if (r.second->type() != RuleEntry::MdType::Index) {
-                start = std::min(start, r.second->min());
-                end   = std::max(end, r.second->max());
+                // The positions of the entries of a trace header count from
+                // one, those of a copy of the header from zero.
+                const size_t first =
+                  (r.second->type() == RuleEntry::MdType::Copy ? 0LU : 1LU);
+
+                start = std::min(start, r.second->min() - first);
+                end   = std::max(end, r.second->max() - first);
             }
         }
 
+        // No entry, no extent.
+        start = std::min(start, end);
+
         flag.badextent = false;
     }
 
@@ -307,6 +315,8 @@ void Rule::addCopy(void)
     if (numCopy == 0) {
         translate[PIOL_META_COPY] = new SEGYCopyRuleEntry();
         numCopy++;
+
+        flag.badextent = (!flag.fullextent);
     }
 }
 
diff --git a/src/segy_utils.cc b/src/segy_utils.cc
index ed5392f..ed7ed95 100644
--- a/src/segy_utils.cc
+++ b/src/segy_utils.cc
@@ -41,7 +41,8 @@ void insertParam(
         return;
     }
 
-    auto r       = prm->r;
+    auto r = prm->r;
+    r->extent();  // Brings the start up to date.
     size_t start = r->start;
 
     if (r->numCopy != 0) {
-- 
2.43.0

