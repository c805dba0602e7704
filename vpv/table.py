"""which contracts decide which property"""
TRUSTED = [
    'clang 18 (C++ to LLVM IR, optimisation passes sroa, early-cse, simplifycfg, loop-simplify)',
    'the obligation generator in /verif/vpv (symbolic execution of the IR, loop summaries by inductive invariants)',
    'z3 4.x/5.x and cvc5 1.1',
    'contracts of external functions: operator new/delete, memcpy/memset, libm, C++ runtime (vpv/models.py)',
]
ASSUME = [
    'operator new succeeds; unwind edges of exceptions are not followed past the throw (a throw ends the contract)',
    'termination is not proved: postconditions are about executions that come back',
    'the g++ -O2 build of /repo implements the same C++ semantics as the clang IR that is verified',
]
SEGY = ['src/ReadSEGY.cc', 'src/ObjectSEGY.cc', 'src/ReadInterface.cc', 'src/ObjectInterface.cc',
        'src/utils/encoding/number_encoding.cc', 'src/utils/encoding/character_encoding.cc']
PURE = ['from_IBM_to_float', 'to_ASCII_from', 'is_printable']
CHECKS = {
    'C10': dict(units=[dict(contract='c10.cc', srcs=SEGY, nsrcs=SEGY + ['src/segy_utils.cc'], opts=dict(pure=PURE))]),
    'C02': dict(units=[dict(contract='c02.cc', srcs=['src/ObjectSEGY.cc', 'src/segy_utils.cc'], nsrcs=['src/ObjectSEGY.cc', 'src/segy_utils.cc', 'src/ObjectInterface.cc'])]),
    'C01': dict(units=[dict(contract='c01.cc', srcs=['src/utils/decomposition/block_decomposition.cc'])]),
    'C04': dict(units=[dict(contract='c04.cc', mode='bv')]),
    'C05': dict(units=[dict(contract='c05.cc', srcs=['src/utils/encoding/number_encoding.cc'], mode='bv', fp='exact')]),
    'C12': dict(units=[dict(contract='c12.cc', srcs=['src/utils/encoding/character_encoding.cc'], opts=dict(unroll=300))]),
    'C16': dict(units=[dict(contract='c16.cc', srcs=['src/utils/signal_processing/taper.cc', 'src/utils/signal_processing/Taper_function.cc'],
                            opts=dict(pure=['vp_weight']), cfp=dict(linear='exact', cosine='exact'), cmode=dict(linear='bv', cosine='bv'), copts=dict(linear=dict(timeout=100000), cosine=dict(timeout=100000)))],
                budget=500, proof_limit=600),
    'C21': dict(units=[dict(contract='c21.cc', srcs=['src/CommunicatorMPI.cc'], ldflags=['-lmpi'])]),
    'C17': dict(units=[dict(contract='c17.cc', srcs=['src/utils/signal_processing/AGC.cc'], opts=dict(pure=['vp_gain']))]),
    'C20': dict(units=[dict(contract='c20.cc', srcs=['src/utils/decomposition/block_decomposition.cc'], ldflags=['-lmpi'], std='gnu++14')]),
    'C03': dict(units=[dict(contract='c03.cc', srcs=['src/DataMPIIO.cc', 'src/CommunicatorMPI.cc'], ldflags=['-lmpi'], opts=dict(place=True))],
                budget=500, proof_limit=700, search_s=40),
    'C22': dict(units=[dict(contract='c22.cc', srcs=['src/Logger.cc'])], bounded=['numStat and procLog: lists of up to three items (record: any list)']),
}
