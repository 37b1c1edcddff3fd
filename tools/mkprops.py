# generates properties.jsonl (kept as a script so that statements stay in one place)
import json
P=[]
def prop(id,title,statement,over,text,why,files,mech,state=(),obs=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(obs),hook_needed=None)))
PRE="matrix sizes M,N,K >= 1 with element counts below 2^31, core count p >= 1 (also larger than the number of blocks), every generated register-tile shape, tile sizes chosen by the library or by the caller (row tile a multiple of the register-tile height, column tile a multiple of its width, any depth)"
prop("C01","K-first multiply computes the matrix product",
 "Multiplying an M x K matrix by a K x N matrix with the K-first schedule leaves in every element of C the dot product of that row of A and that column of B (up to single-precision rounding), whatever the sizes, core count, register-tile shape and tile sizes. No element of C is left out and none depends on what C held before.",
 ["inputs","configurations"],"for all "+PRE,
 "The existing tests run a few hundred fixed sizes with one core count, one kernel shape and automatic tiles; the edge handling in M, N, K and in cores is a product of cases that depends on remainders.",
 ["src/cake_sgemm.cpp","src/cake_sgemm_k_first.cpp","src/pack_k_first.cpp","src/pack_helper.cpp","src/unpack_k_first.cpp","src/pack_ob.cpp"],
 [("K-first block loop","src/cake_sgemm_k_first.cpp:schedule_KMN"),("driver","src/cake_sgemm.cpp:cake_sgemm")],
 [("blk_dims_t","block plan all parts share","include/common.h")],["C after cake_sgemm(..., sch=KMN)"])
prop("C02","M-first multiply computes the matrix product",
 "Multiplying with the M-first schedule leaves in every element of C the dot product of that row of A and that column of B (up to single-precision rounding), whatever the sizes, core count, register-tile shape and tile sizes. Partial sums of different depth slices are all added exactly once.",
 ["inputs","configurations"],"for all "+PRE,
 "Tests reach this schedule with one core count, kernel shape and automatic tiles on few sizes.",
 ["src/cake_sgemm.cpp","src/cake_sgemm_m_first.cpp","src/pack_m_first.cpp","src/unpack_m_first.cpp","src/pack_ob.cpp"],
 [("M-first block loop","src/cake_sgemm_m_first.cpp:schedule_MKN"),("packing","src/pack_m_first.cpp"),("unpacking","src/unpack_m_first.cpp")],
 obs=["C after cake_sgemm(..., sch=MKN)"])
prop("C03","N-first multiply computes the matrix product",
 "Multiplying with the N-first schedule leaves in every element of C the dot product of that row of A and that column of B (up to single-precision rounding), whatever the sizes, core count, register-tile shape and tile sizes. Partial sums of different depth slices are all added exactly once.",
 ["inputs","configurations"],"for all "+PRE,
 "Tests reach this schedule with one core count, kernel shape and automatic tiles on few sizes.",
 ["src/cake_sgemm.cpp","src/cake_sgemm_n_first.cpp","src/pack_n_first.cpp","src/unpack_n_first.cpp","src/pack_ob.cpp"],
 [("N-first block loop","src/cake_sgemm_n_first.cpp:schedule_NKM"),("packing","src/pack_n_first.cpp"),("unpacking","src/unpack_n_first.cpp")],
 obs=["C after cake_sgemm(..., sch=NKM)"])
prop("C04","Pack-on-the-fly multiply computes the matrix product",
 "The multiply that packs each block of A and B just before using it leaves in every element of C the dot product of that row of A and that column of B (up to single-precision rounding). A packed block that is reused for a later step always still holds the block that step needs.",
 ["inputs","configurations","schedules"],"for all "+PRE,
 "The reuse of the last packed block depends on the back-and-forth order of the block walk and on every edge remainder; tests sample few of these.",
 ["src/cake_sgemm.cpp","src/cake_sgemm_k_first.cpp","src/pack_ob.cpp"],
 [("online schedule","src/cake_sgemm_k_first.cpp:schedule_KMN_online"),("block packers","src/pack_ob.cpp")],
 obs=["C after cake_sgemm_online"])
prop("C05","2-D grid multiply computes the matrix product",
 "The multiply that spreads work over a two-dimensional grid of cores leaves in every element of C the dot product of that row of A and that column of B (up to single-precision rounding), for every grid the planner chooses, including grids larger than the matrix needs.",
 ["inputs","configurations","schedules"],"for all "+PRE,
 "The grid depends on p, M and N; tests use one p.",
 ["src/cake_sgemm.cpp","src/cake_sgemm_k_first.cpp","src/block_sizing.cpp","src/pack_ob.cpp"],
 [("2-D schedule","src/cake_sgemm_k_first.cpp:schedule_KMN_2d"),("planner","src/block_sizing.cpp:init_block_dims_2d")],
 obs=["C after cake_sgemm_2d"])
prop("C06","Block plan covers the matrix exactly",
 "For each of the three one-dimensional schedules the block plan tiles the padded matrices exactly: block counts, edge-block sizes, number of cores active on the edge and the last core's share add up to M rows (rounded up to register tiles), N columns (rounded up likewise) and exactly K. Every size in the plan is within the full tile size, and every active core has a non-empty share.",
 ["inputs","configurations"],"for all "+PRE,
 "Ceilings and remainders of three sizes against p and tile sizes: tests only see plans through a few products.",
 ["src/block_sizing.cpp"],[("planner","src/block_sizing.cpp:init_block_dims"),("tile choice","src/block_sizing.cpp:get_cache_dims")],
 [("blk_dims_t","the plan","include/common.h")],["fields of the plan after init_block_dims"])
prop("C07","2-D plan and processor grid are valid",
 "The number of grid columns chosen for p cores divides p and is the divisor closest to the ideal ratio (the ideal clamped to 1..p, ties to the smaller), and the 2-D block plan built on it tiles the padded matrices exactly with at most p cores. Every active core has a non-empty share no larger than the full tile.",
 ["inputs","configurations"],"for all M,N,K >= 1, p >= 1 and any number of physical cores; for all user or automatic tile sizes",
 "Tests use one p per machine, so a single grid.",
 ["src/block_sizing.cpp"],[("grid","src/block_sizing.cpp:grid_dims_2d"),("planner","src/block_sizing.cpp:init_block_dims_2d")],
 obs=["grid_dims_2d result","fields of the plan after init_block_dims_2d"])
prop("C08","Packing A keeps every element and pads with zeros",
 "Packing A, for each schedule, stores every element of A exactly once, at the place the multiply reads it, and every other place the multiply reads holds zero. Nothing outside the reported packed size is written and nothing outside A is read.",
 ["inputs","configurations"],"for all "+PRE+", schedules K-first, M-first, N-first",
 "Packed contents are only tested through products on a few sizes.",
 ["src/pack_helper.cpp","src/pack_k_first.cpp","src/pack_m_first.cpp","src/pack_n_first.cpp","src/pack_ob.cpp"],
 [("pack_A","src/pack_helper.cpp:pack_A"),("size","src/pack_helper.cpp:cake_sgemm_packed_A_size")],obs=["packed buffer after pack_A"])
prop("C09","Packing B keeps every element and pads with zeros",
 "Packing B, for each schedule, stores every element of B exactly once, at the place the multiply reads it, and every other place the multiply reads holds zero. Nothing outside the reported packed size is written and nothing outside B is read.",
 ["inputs","configurations"],"for all "+PRE+", schedules K-first, M-first, N-first",
 "Packed contents are only tested through products on a few sizes.",
 ["src/pack_helper.cpp","src/pack_k_first.cpp","src/pack_m_first.cpp","src/pack_n_first.cpp","src/pack_ob.cpp"],
 [("pack_B","src/pack_helper.cpp:pack_B"),("size","src/pack_helper.cpp:cake_sgemm_packed_B_size")],obs=["packed buffer after pack_B"])
prop("C10","Packing then unpacking C gives C back",
 "For the M-first and N-first schedules, packing C and unpacking it returns the same M x N matrix; unpacking writes every element of C exactly once and nothing outside it. Packing never reads outside C and never writes outside the reported packed size.",
 ["inputs","configurations"],"for all "+PRE+", schedules M-first and N-first",
 "Packing C is only used when accumulating, which tests do not do.",
 ["src/pack_helper.cpp","src/pack_m_first.cpp","src/pack_n_first.cpp","src/unpack_m_first.cpp","src/unpack_n_first.cpp","src/pack_ob.cpp"],
 [("pack_C","src/pack_helper.cpp:pack_C"),("unpack_C","src/pack_helper.cpp:unpack_C")],obs=["C after unpack_C(pack_C(C))"])
prop("C11","Work buffers are never accessed out of bounds",
 "During any multiply, every read and write of the library's own packed and partial-result buffers lies inside the memory it allocated for them, and every value read from them was written before. The sizes reported for packed operands are large enough for everything the multiply touches.",
 ["inputs","configurations","schedules"],"for all "+PRE+", all five multiply entry points and schedules",
 "An overrun of a few floats past a heap block does not change results, so product tests do not see it.",
 ["src/cake_sgemm.cpp","src/cake_sgemm_k_first.cpp","src/cake_sgemm_m_first.cpp","src/cake_sgemm_n_first.cpp","src/pack_helper.cpp","src/pack_ob.cpp"],
 [("sizes","src/pack_helper.cpp:cake_sgemm_packed_A_size"),("allocation","src/cake_sgemm.cpp")],obs=["AddressSanitizer on replay"])
prop("C12","Operands are read in bounds and only C is written",
 "A multiply reads A only inside M x K, B only inside K x N and writes C only inside M x N; A and B are bit-for-bit unchanged afterwards. This holds at every edge remainder and for every core count.",
 ["inputs","configurations","schedules"],"for all "+PRE+", all multiply entry points and schedules",
 "Reads past the end of a heap block go unnoticed by product tests.",
 ["src/cake_sgemm.cpp","src/cake_sgemm_k_first.cpp","src/pack_ob.cpp","src/pack_k_first.cpp","src/pack_m_first.cpp","src/pack_n_first.cpp","src/unpack_k_first.cpp","src/unpack_m_first.cpp","src/unpack_n_first.cpp"],
 [("edge packers","src/pack_ob.cpp"),("edge unpackers","src/pack_ob.cpp:unpack_ob_C_multiple_buf")],obs=["guarded operands on replay"])
prop("C13","Each micro-kernel adds the tile product",
 "Every generated micro-kernel adds to its output tile exactly the product of its packed A and B slivers for any depth, including zero, reading only the slivers and writing only the tile. Each product term is added exactly once.",
 ["inputs","configurations"],"for all generated kernel shapes and all depths k >= 0",
 "Tests use one kernel shape.",
 ["python/kernel_gen.py","src/kernels/haswell"],[("generator","python/kernel_gen.py"),("wrapper","include/kernel_wrapper.h:cake_sgemm_ukernel")],
 obs=["output tile after one kernel call"])
prop("C14","The kernel used is the one the context names",
 "After choosing a register-tile shape in the context, the multiply runs the generated kernel of exactly that shape, for every shape the library generates. A freshly queried context is consistent: its shape is a generated one and its kernel table position is the one of that shape.",
 ["configurations","histories"],"for all generated shapes and any sequence of shape changes on a context",
 "Tests use only the default shape.",
 ["include/kernel_wrapper.h","src/block_sizing.cpp","python/kernel_gen.py"],
 [("update_mr_nr","src/block_sizing.cpp:update_mr_nr"),("dispatch","include/kernel_wrapper.h:cake_sgemm_ukernel")],obs=["kernel called"])
prop("C15","Parallel regions are free of data races",
 "In every parallel region of the library no two threads access the same memory location with at least one write without ordering, so the result is the same for every thread schedule.",
 ["schedules","inputs","configurations"],"for all thread interleavings, all sizes and core counts",
 "A race shows only under particular interleavings.",
 ["src/cake_sgemm_k_first.cpp","src/cake_sgemm_m_first.cpp","src/cake_sgemm_n_first.cpp","src/pack_k_first.cpp","src/pack_m_first.cpp","src/pack_n_first.cpp","src/pack_ob.cpp","src/unpack_k_first.cpp","src/unpack_m_first.cpp","src/unpack_n_first.cpp","src/transpose.cpp"],
 [("OpenMP private clauses and disjoint blocks","src/*.cpp")],obs=["accesses of each iteration of a parallel loop"])
prop("C16","Every resource taken is released exactly once",
 "Each multiply releases every buffer and context it allocated exactly once and none that belongs to the caller (in particular packed operands and the caller's context), and each system query closes every stream it opened. This holds on every non-exiting path.",
 ["inputs","configurations","histories"],"for all argument combinations (prepacked or not, own or caller context, accumulate or not) and call histories",
 "Tests make single calls and do not look for leaks.",
 ["src/cake_sgemm.cpp","src/block_sizing.cpp"],[("free paths","src/cake_sgemm.cpp"),("streams","src/block_sizing.cpp:get_cache_size")],obs=["allocation balance after a call"])
prop("C17","Transposition is exact",
 "Transposing a K x N matrix by blocks of any size writes every element to its mirrored place exactly once and touches nothing outside either matrix, including when the block sizes do not divide the matrix.",
 ["inputs","configurations","schedules"],"for all K,N >= 1 and block sizes >= 1",
 "No test transposes a matrix whose size is not a multiple of the block.",
 ["src/transpose.cpp"],[("transpose_mat","src/transpose.cpp")],obs=["output after transpose_mat"])
prop("C18","Prepacked operands give the same product",
 "Passing operands that were packed beforehand with the library's packing functions and the same plan gives the same result as passing plain operands, in every combination of packed A and packed B, and leaves the packed operands unchanged for reuse.",
 ["inputs","configurations","histories"],"for all "+PRE+", all combinations of prepacked operands, repeated calls",
 "Tests never reuse prepacked operands.",
 ["src/cake_sgemm.cpp","src/pack_helper.cpp"],[("driver","src/cake_sgemm.cpp:cake_sgemm")],obs=["C with packedA/packedB"])
prop("C19","Scale factors of the multiply",
 "The multiply computes alpha*A*B + beta*C. With alpha 1 and beta 0 the previous contents of C have no influence; with alpha 1 and beta 1 the M-first and N-first schedules add the product to C exactly once per element.",
 ["inputs","configurations","histories"],"for all "+PRE+", all alpha and beta (other values are recorded as known findings)",
 "Tests use the default factors only.",
 ["src/cake_sgemm.cpp","src/pack_helper.cpp"],[("beta path","src/cake_sgemm.cpp:cake_sgemm")],obs=["C after the call"])
prop("C20","Automatic schedule and tile choice is always usable",
 "When the caller leaves schedule or tile sizes to the library it always picks one of the three schedules and positive tile sizes whose row tile is a multiple of the register-tile height and column tile a multiple of its width; a schedule or a full set of tile sizes given by the caller is used as given.",
 ["inputs","configurations"],"for all sizes, core counts and cache sizes in the supported range",
 "The choice is float arithmetic on cache sizes of the test machine only.",
 ["src/block_sizing.cpp","src/cake_sgemm.cpp"],[("get_cache_dims","src/block_sizing.cpp"),("derive_schedule","src/block_sizing.cpp"),("set_schedule","src/cake_sgemm.cpp")],obs=["chosen plan"])
prop("C21","Context constructors and small helpers",
 "Every context constructor returns a context with every field the library reads set to a meaningful value; clamping keeps a value inside the given range and changes no value already inside; the least common multiple helper returns the smallest positive common multiple.",
 ["inputs","configurations"],"for all arguments",
 "Reading an unset field usually happens to work on a fresh heap.",
 ["src/block_sizing.cpp"],[("constructors","src/block_sizing.cpp:cake_query_cntx"),("helpers","src/block_sizing.cpp:lcm")],obs=["fields of the context"])
prop("C22","The result checkers accept only correct results",
 "The library's product and sum checkers accept a result only if every element is within their stated tolerance of the reference value (so never one with a not-a-number), and accept every exactly correct result. Every element is compared.",
 ["inputs"],"for all sizes and all result values",
 "The checkers are the tests' own oracle and are not tested.",
 ["src/util.cpp"],[("mat_equals","src/util.cpp"),("cake_sgemm_checker","src/util.cpp"),("add_checker","src/util.cpp")],obs=["return value"])
prop("C23","Inline-assembly packers agree with the portable ones",
 "The BLIS inline-assembly packing kernels store the same slivers as the portable packers.",
 ["inputs"],"for all slivers","Built only with other defines.",["src/kernels","include/bli_x86_asm_macros.h"],[("bli_spackm","src/kernels")])
prop("C24","Rounding error of the product is bounded",
 "Each element of a product (alpha 1; beta 0, or 1 where old values are added) computed by any of the schedules differs from the exact value by no more than the usual bound for single-precision summation, (K+1)u/(1-(K+1)u) times the sum of the absolute values of its terms with u = 2^-24, as long as nothing overflows or underflows: no term goes through more than K+1 rounded operations, and outside the multiply kernels elements are only copied.",
 ["inputs","configurations"],"for all finite float data, sizes, tile sizes, core counts and register tiles","Tests use random data with a loose tolerance (1e-3), which hides extra roundings and lost low-order digits.",["python/kernel_gen.py","src/kernels/haswell/dense.cpp","src/cake_sgemm_k_first.cpp","src/pack_ob.cpp"],[("fma chain","generated kernels"),("copies","src/pack_ob.cpp")],obs=["values of C"])
prop("C25","System queries report the machine's caches and cores",
 "The cache size and core queries return the real sizes of the machine they run on.",
 ["configurations"],"for all machines","Tests run on one machine.",["src/block_sizing.cpp"],[("lscpu pipes","src/block_sizing.cpp:get_cache_size")])
open("/verif/properties.jsonl","w").write("".join(json.dumps(p)+"\n" for p in P))
