import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech])))
p('C01','Block decomposition partitions the global range',
 "For any number of items N and of processes P >= 1, the blocks given to ranks 0..P-1 are consecutive, disjoint, start at 0, end at N, and their sizes differ by at most one with the larger blocks first. Blocks of smaller ranks come first, so global order is rank order. The owner and local index reported for an item g < N are those of the block that contains g.",
 ['inputs','configurations'],'all 64-bit N, P and ranks',
 'Tests run a handful of (N, P) pairs; a wrong block at one remainder loses or duplicates traces silently.',
 ['src/utils/decomposition/block_decomposition.cc','include/ExSeisDat/utils/decomposition/block_decomposition.h'],
 [('block_decomposition','block_decomposition.cc'),('block_decomposition_location','block_decomposition.cc')])
p('C02','SEG-Y geometry: every access touches exactly its own bytes',
 "In a SEG-Y file with ns samples per trace, the text and binary headers occupy bytes [0,3600), the header of trace i the 240 bytes at 3600+i*(240+4ns), and its samples the 4ns bytes that follow. Reading or writing header, trace headers, samples or whole traces, for a contiguous range or for any list of trace numbers (distinct ones when writing), transfers for every requested trace exactly those bytes to or from its place in the caller's buffer and touches no other byte of file or buffer. The file size set for nt traces is 3600+nt*(240+4ns).",
 ['inputs'],'all ns, offsets, counts and lists of trace numbers within a file below 2^63 bytes',
 'The tests check fixed sizes through mocks that repeat the same formulas; offsets that only differ for large files, ns=0 or unusual lists are not sampled.',
 ['src/ObjectSEGY.cc','src/segy_utils.cc','include/ExSeisDat/PIOL/segy_utils.hh'],
 [('ObjectSEGY::readHO, writeHO, readDOMD, readDO, readDODF, writeDOMD, writeDO, writeDODF and their list forms','src/ObjectSEGY.cc'),('SEGY_utils offsets and sizes','src/segy_utils.cc')])
p('C03','Large transfers are chunked without loss',
 "A read or write of any number of bytes, contiguous, of blocks at a stride or of blocks at listed offsets, is carried out by MPI-IO operations of which none is larger than the configured maximum (at least one stride, or two listed blocks), and every byte or block of the request is moved exactly once, between its own file location and its own place in the buffer; no other byte of file or buffer changes. Operations are collective exactly in the collective mode, a rank with nothing to do takes part in as many operations and changes of view as the rank that asks for the most, the view is that of the whole file afterwards and no datatype is left behind. Every operation that fails is reported to the log and does not stop the remaining ones.",
 ['inputs','configurations','fault_sequences'],'all sizes, block sizes, strides, offset lists, maxima, per-rank differences in them, and failing operations',
 'Tests never exceed the 2 GB limit per operation that the chunking exists for, run on one process, and never see a failing chunk.',
 ['src/DataMPIIO.cc','src/CommunicatorMPI.cc'],[('DataMPIIO::read, write, contigIO, listIO, readv, writev, iol','src/DataMPIIO.cc')])
p('C04','Big-endian number encoding is exact and invertible',
 "Encoding a 16- or 32-bit integer or a single precision value produces its big-endian bytes, decoding gives back the value bit for bit, and every byte string decodes and re-encodes to itself. The encoding of a 64-bit integer is its big-endian bytes too.",
 ['inputs'],'all 2^16 / 2^32 values and all byte strings',
 'A test samples some values; an error for one sign or one NaN payload corrupts data silently.',
 ['include/ExSeisDat/utils/encoding/number_encoding.hh'],[('to_big_endian, from_big_endian, parse_floating_point, to_float','number_encoding.hh')])
p('C05','IBM floating point samples convert to the right values',
 "For every 4-byte IBM/360 single precision value, the conversion to IEEE gives the exactly rounded (to nearest, ties to even) IEEE value of the number it encodes, with its sign, zero for zero, and infinity when the number is too large. The result is the same in either byte order of the input.",
 ['inputs'],'all 2^32 IBM values; all sample counts',
 'Tests use a few values; subnormal results, overflow and rounding ties are single points in 2^32.',
 ['src/utils/encoding/number_encoding.cc'],[('from_IBM_to_float','number_encoding.cc')])
p('C06','Coordinate scalars are decoded and chosen consistently',
 "A stored trace scalar s means multiply by s when positive, divide by |s| when negative, and 1 when zero. The scalar chosen for writing a coordinate is one of +-1, +-10, +-100, +-1000, +-10000, keeps the scaled value within a 32-bit integer whenever some such scalar can, and when several coordinates share a scalar the chosen one does not overflow any of them.",
 ['inputs'],'all 16-bit stored scalars and all finite coordinate values',
 'Values are sampled; rounding at a power of ten or a mixed-magnitude pair decides correctness.',
 ['src/segy_utils.cc','src/param_utils.cc'],[('parse_scalar, find_scalar, scal_comp','segy_utils'),('insertParam','param_utils.cc')])
p('C07','A rule describes every parameter and its byte extent',
 "After any sequence of adding, removing or translating entries, a rule knows exactly the metadata it was told, each parameter type uses slots numbered without gaps or sharing, and the reported byte offset (start) and extent cover the bytes of every entry and of its scalar and never leave the trace header. Asking about metadata the rule does not have never changes the rule.",
 ['histories','inputs'],'all sequences of operations and header positions',
 'Tests use one or two fixed sequences.',
 ['src/Rule.cc','include/ExSeisDat/PIOL/Rule.hh'],[('Rule::addLong..., rmRule, offset, extent','src/Rule.cc')])
p('C08','Trace parameters survive storage',
 "A parameter value set for trace i is the value read back for trace i and no other trace or parameter changes; copying trace parameters from one set to another copies every parameter the destination has. Writing parameters into trace headers and extracting them again gives the integers exactly and header bytes no rule entry covers are left alone.",
 ['inputs','histories'],'all trace numbers, values and rules',
 'Tests use one default rule and patterned data.',
 ['src/param_utils.cc','src/Param.cc','include/ExSeisDat/PIOL/param_utils.hh'],[('setPrm, getPrm, cpyPrm, insertParam, extractParam','src/param_utils.cc')])
p('C09','Reading an arbitrary list of traces returns exactly the requested traces',
 "For any list of trace numbers, in any order and with repeats, reading that list puts at position j the samples and the parameters of the j-th requested trace. An empty list takes part in the collective read and delivers nothing.",
 ['inputs'],'all lists of any length',
 'Tests use a few list shapes; the reordering uses a sort and a duplicate compression that depend on the data.',
 ['src/ReadSEGY.cc'],[('readTraceNonMonotonic','src/ReadSEGY.cc')])
p('C10','Reads never go past the end of the file',
 "Whatever offset and count are requested, a contiguous read touches only traces that exist, delivers all existing traces of the requested range, converted from the file's big-endian IEEE or IBM format, and writes nothing to the caller's buffer beyond them; a read of a sorted list delivers the j-th listed trace at place j. The number of traces, samples per trace, number format and sample interval reported for an opened file are those its header and size encode, and the text is 3200 characters long.",
 ['inputs'],'all offsets, counts, file sizes and header contents',
 'Tests ask for ranges inside or slightly past the end; offset beyond the end and extreme header values are not tried.',
 ['src/ReadSEGY.cc'],[('ReadSEGY::readTrace, readParam, Opt::procHeader','src/ReadSEGY.cc')])
p('C11','A written SEG-Y file has consistent headers, size and data',
 "After writing, the header encodes the configured samples per trace, sample interval, format and text, the file size matches the number of traces, and every trace written lies at its own place with its samples big-endian. The caller's sample buffer holds the same values after the call as before.",
 ['inputs','histories'],'all sequences of configuration and write calls and all values',
 'Tests write a few patterns in one order.',
 ['src/WriteSEGY.cc'],[('WriteSEGY','src/WriteSEGY.cc')])
p('C12','Text header character conversion is total and invertible',
 "Every EBCDIC byte with an ASCII equivalent converts to it and back to itself; every byte without one converts to the substitute character, never to a different printable character, in both directions. Whether a character counts as printable is the same for it in either encoding.",
 ['inputs'],'all 256 byte values in both directions',
 'Tests convert a few strings.',
 ['src/utils/encoding/character_encoding.cc'],[('to_ascii_from_EBCDIC','character_encoding.cc')])
p('C13','Trace ordering is a strict weak order on the documented keys',
 "Each sort order compares traces by its documented keys in order (source, receiver, line and cross-line positions or offset) and breaks remaining ties by trace number; the relation is irreflexive, transitive and total on traces with ordered keys. Sorting with it is therefore deterministic, whatever the decomposition.",
 ['inputs'],'all parameter values, including equal keys',
 'Sampled data rarely contains ties at every level of the key.',
 ['src/sort.cc'],[('compare functions','sort.cc')])
p('C14','The distributed sort produces a sorted permutation',
 "For any traces spread in any way over the processes, the sort index assigns every trace a distinct position and positions follow the order.",
 ['inputs','configurations','schedules'],'all distributions, sizes and process counts',
 'Tests run one process with small sizes.',
 ['src/sort.cc'],[('getSortIndex, sortP','sort.cc')])
p('C15','Minimum and maximum over all traces are exact',
 "The reported minimum and maximum of each parameter are values that occur, no trace on any process lies outside them, and the trace numbers reported are global numbers of traces with those values, the same on every process, also for negative values and for processes that hold no trace.",
 ['inputs','configurations'],'all values, counts and distributions',
 'Tests use positive and patterned values on one process.',
 ['src/minmax.cc','src/Flow/Set.cc'],[('getMinMax','minmax.cc')])
p('C16','Tapering only scales the tapered ends',
 "Tapering a trace whose first f samples are zero (muted) leaves those samples unchanged, multiplies sample f+k by the taper weight of position k+1 in a window of min(left, n-f) samples when k lies in that window, multiplies the last min(right, n-f) samples by the weight of their distance to the end of the trace, both where the windows overlap, and leaves every other sample bit for bit unchanged - for every trace length, every mute, every window shorter than the trace and every weight function - without touching memory outside the trace. The linear, cosine and squared cosine weights lie between 0 and 1 and are 1 at the inner end of the window.",
 ['inputs'],'all sample values (including all-zero traces), trace lengths and window sizes',
 'Tests use a constant trace and few windows.',
 ['src/utils/signal_processing/taper.cc','src/utils/signal_processing/Taper_function.cc'],[('taper','taper.cc'),('linear_taper, cosine_taper, cosine_square_taper','Taper_function.cc')])
p('C17','Gain control scales each sample with the gain of its own window',
 "AGC (and its C function) on a trace longer than the window, the window size rounded up to an odd number, multiplies every sample by what the given gain function returns for the window centred on that sample in the signal as it was given - not yet scaled -, the window cut at the two ends of the trace, with the position of the sample as the centre of the window and the target amplitude asked for. No window reaches outside the trace and each sample is scaled once.",
 ['inputs'],'all sample values, trace lengths, window sizes and gain functions',
 'Fixed-size patterned data with a few odd window sizes.',
 ['src/utils/signal_processing/AGC.cc'],[('AGC, exseis_AGC','AGC.cc')])
p('C18','Frequency filter gains match the filter design',
 "A lowpass, highpass, bandpass or bandstop filter has the gain of the designed Butterworth response at every frequency, to floating point accuracy.",
 ['inputs'],'all corner frequencies, orders, and sampling intervals',
 'Tests compare a few coefficients to reference values.',
 ['src/temporalfilter.cc'],[('filter design','temporalfilter.cc')])
p('C19','Gathers group every trace exactly once',
 "Traces are grouped into gathers of equal (in-line, cross-line) or bin number, every trace of the set belongs to exactly one gather, and gathers crossing a process boundary are not split or counted twice.",
 ['inputs','configurations'],'all lines and process boundaries',
 'One process only.',
 ['src/gather.cc'],[('getIlXlGathers','gather.cc')])
p('C20','Distributed vector gets and sets reach the right element',
 "The vector spreads its elements over the processes by the block decomposition. Setting global element i writes exactly the bytes of that element, getting it returns them and changes nothing, whichever process owns it, for every element size; an index outside the vector is refused (nothing is written, a default value is returned). A window is only accessed under its lock - exclusively for a set - and no lock or window is left behind.",
 ['inputs','configurations','histories'],'all sizes, indices, process counts and element types',
 'Tests use one element type and a few indices and process counts.',
 ['include/ExSeisDat/utils/mpi/MPI_Distributed_vector.hh'],[('get, set','MPI_Distributed_vector')])
p('C21','Collective helpers combine the values of all ranks of their communicator',
 "Every rank's value takes part exactly once, unchanged and with its own type, in a collective over the communicator of the object (not another one): sum, max and min return the result of that reduction, the offset given to a rank is the sum of the values of the lower ranks and 0 on the first rank, and gather returns the values of all the ranks in the order of the ranks, complete and without change, for every count and element type. A collective that fails is reported to the log and one that succeeds is not.",
 ['inputs','configurations'],'all process counts, communicators and values',
 'Tests run on the world communicator with one process.',
 ['src/CommunicatorMPI.cc'],[('sum, max, min, gather, offset','CommunicatorMPI.cc')])
p('C22','Errors are never lost by the log',
 "The log reports an error exactly when one has been recorded before, whatever its verbosity and whatever else is recorded before or after it: recording anything else, counting and processing never hide or invent an error. What is within the verbosity of the log is stored as it was recorded, with what was stored before still behind it, until it is processed; the number reported for a status is that of the stored items of that status.",
 ['histories'],'all sequences of records',
 'Tests use one or two records.',
 ['src/Logger.cc'],[('Logger::record, isErr','Logger.cc')])
p('C23','4D binning finds the best match within reach',
 "For each trace of the first survey the match chosen among all traces of the second is the one with the smallest distance, and none is missed because of the in-line window.",
 ['inputs','configurations'],'all positions and distributions',
 'There are no tests of the 4D utility.',
 ['util/4dcore.cc'],[('update','4dcore.cc')])
p('C24','A set writes every input trace once to its output',
 "The output of a set with mapping operations holds every input trace exactly once, each processed by the whole chain of operations, in files named after the given output name.",
 ['inputs','histories'],'all chains of operations and file counts',
 'Tests use fixed chains over mock files.',
 ['src/Flow/Set.cc'],[('Set::output, startSingle, calcFunc','Set.cc')])

import sys
sys.path.insert(0,'/verif/vpv')
from table import CHECKS
NA={}
exec(open('/verif/tools/na.py').read())
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
T='contract-based deductive verification: contracts on the real functions, obligations generated from their LLVM IR, discharged by z3/cvc5'
c=[]
for x in P:
    if x['id'] in CHECKS:
        k=CHECKS[x['id']]
        c.append(dict(property=x['id'],quick_cmd='python3-vt vpv/check.py '+x['id'],thorough_cmd='VERIF_TIER=thorough python3-vt vpv/check.py '+x['id'],
          technique=T+k.get('tech',''),level=k.get('level','proof'),level_note=k.get('note','for all inputs; trusts clang, the obligation generator, the solvers and the contracts listed in the evidence')))
open('/verif/MANIFEST.json','w').write(json.dumps(dict(version=1,setup_cmd='python3-vt -c "import z3, cvc5; print(z3.get_version_string())"',
 checks=c,not_applicable=[dict(property=x['id'],reason=NA.get(x['id'],'in progress')) for x in P if x['id'] not in CHECKS]),indent=1)+'\n')
