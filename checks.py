"""Table of the checks: harness file, entries, slices and bounds per property."""
ASSUMPTIONS = [
 "the clang -O1 (thorough also -O0) IR of the harness plus /repo's headers is what is decided; libstdc++ and the runtime stubs in engine/rt.cpp stand for the standard library (stubs: allocation, exception classes, locks, once flags)",
 "allocation fails only where a harness makes it a symbolic choice, or above 8 MB",
 "threads interleave at atomic operations, lock operations and fences under sequential consistency; data races are decided by happens-before over those operations with their memory orders; compare-exchange does not fail spuriously",
 "structural choices (which operation, how many slots) are symbolic variables split into one path per feasible value; data values stay symbolic",
 "signed overflow and floating point values are not symbolic concerns of any property here"]
from bounds import B as BOUNDS
def J(entry, covers=(), slices=8, **k): return dict(entry=entry, covers=list(covers), slices=slices, **k)
R = lambda a, b: range(a, b + 1)
PROPS = {
 "C01": dict(file="c01.cpp", jobs=[J("c01_void", R(1, 10)), J("c01_int", R(1, 10)), J("c01_obj", R(1, 10)), J("c01_wide", [1]), J("c01_scale", [1], 4), J("c01_churn", [1], 4), J("c01_wlife", [1], 1, soft=True), J("c01_wslots", [1], 1, soft=True), J("c01_in_void", [0, 1, 2, 3, 4, 10, 11], 8), J("c01_in_int", [0, 1, 2, 3, 4, 10, 11], 8), J("c01_seq_void", [0, 1, 2, 10, 11], 8), J("c01_seq_int", [0, 1, 3, 4, 10], 8)]),
 "C02": dict(file="c02.cpp", jobs=[J("c02_val_void", [1, 2, 3], 4), J("c02_val_int", [1, 2, 3], 4), J("c02_ref_void", [1], 1), J("c02_ref_int", [1], 1), J("c02_cref_void", [1], 1), J("c02_cref_int", [1], 1), J("c02_misc", [1], 4), J("c02_types_void", [1], 4), J("c02_types_int", [1], 4), J("c02_many", [1], 4), J("c02_nested", [1], 1), J("c02_others_void", [1], 4), J("c02_others_int", [1], 4), J("c02_ways", [1], 1), J("c02_threads", [1], 2, threads=True, args_quick=["-preempt", "2"])]),
 "C03": dict(file="c03.cpp", jobs=[J("c03_int", [1, 2], 2), J("c03_bool", [1, 2], 1), J("c03_obj", [1, 2], 2), J("c03_void", [1], 1), J("c03_cint", R(10, 13), 4), J("c03_cobj", R(10, 13), 2), J("c03_cvoid", R(10, 13), 4), J("c03_types", R(20, 26), 1), J("c03_many", [1], 2), J("c03_nested", [1], 1), J("c03_threads", [1], 2, threads=True)]),
 "C04": dict(file="c04.cpp", jobs=[J("c04_void", R(1, 12)), J("c04_int", R(1, 12)), J("c04_wrap", [1], 3, slicedepth=1, soft=True), J("c04_copies", [1], 1), J("c04_in_void", [0, 1, 2, 3, 7, 11, 12, 13, 15], 8), J("c04_in_int", [0, 1, 2, 3, 7, 11, 12, 13, 15], 8), J("c04_seq_void", [0, 1, 2, 7, 10], 8), J("c04_seq_int", [0, 1, 10, 11, 12], 8)]),
 "C05": dict(file="c05.cpp", jobs=[J("c05_void", R(1, 10)), J("c05_int", R(1, 10)), J("c05_misc", [1], 1), J("c05_wrap", [1], 4, slicedepth=1, soft=True), J("c05_repeat", [1], 2), J("c05_in_void", [0, 1, 3, 4, 5, 6, 10, 11], 8), J("c05_in_int", [0, 1, 3, 4, 5, 6, 10, 11], 8), J("c05_seq_void", [0, 3, 4, 5, 6], 8), J("c05_seq_int", [0, 1, 5, 6, 11], 8)]),
 "C06": dict(file="c06.cpp", jobs=[J("c06_void", R(1, 10)), J("c06_int", R(1, 10)), J("c06_misc", [1, 2, 3], 1), J("c06_in_void", [0, 1, 3, 7, 8, 9, 10, 11, 13], 8), J("c06_in_int", [0, 1, 3, 7, 8, 9, 10, 11, 13], 8), J("c06_seq_void", [0, 7, 8, 9, 10], 8), J("c06_seq_int", [0, 1, 7, 8, 11], 8)]),
 "C07": dict(file="c07.cpp", jobs=[J("c07_void", [1, 2, 3, 4, 5, 10, 11, 12, 13, 14, 17]), J("c07_int", [1, 2, 3, 4, 5]), J("c07_cat_void", list(R(1, 6)) + [10, 11], 2), J("c07_cat_int", list(R(1, 6)) + [10, 11], 2), J("c07_many", [1]), J("c07_stride", [1], 2), J("c07_in_void", [0, 1, 2, 3, 4, 10, 11, 15], 8), J("c07_in_int", [0, 1, 2, 3, 4, 10, 11, 15], 8), J("c07_seq_void", [0, 1, 2, 10, 11], 8), J("c07_dup_void", [0, 1, 2, 10, 11], 8), J("c07_dup_int", [0, 1, 2, 10, 11], 8)]),
 "C08": dict(file="c08.cpp", jobs=[J("c08_void", R(1, 7), 4), J("c08_int", R(1, 7), 4), J("c08_obj", R(1, 7), 4), J("c08_alone_void", [1, 2, 3], 1), J("c08_alone_int", [1, 2, 3], 1), J("c08_alone_obj", [1, 2, 3], 1), J("c08_misc", [1, 2], 1), J("c08_many", [1], 1), J("c08_in_void", [0, 1, 3, 4, 11, 12, 14], 8), J("c08_in_int", [0, 1, 3, 4, 11, 12, 14], 8), J("c08_seq_void", [0, 1, 10, 11, 12], 8), J("c08_owners", R(10, 15), 1)]),
 "C09": dict(file="c09.cpp", jobs=[J("c09_void", list(R(0, 8)) + [20]), J("c09_int", list(R(0, 8)) + [20]), J("c09_four", list(R(0, 8)) + [20]), J("c09_wrap", [1], 2, slicedepth=1, soft=True), J("c09_mem", [1], 1), J("c09_deep", [1], 4), J("c09_ops_void", [0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 11], 8), J("c09_ops_int", [0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 11], 8), J("c09_seq_void", [0, 1, 10, 11], 8), J("c09_seq_int", [0, 3, 4, 10, 11], 8), J("c09_dup_void", [0, 2, 3, 10, 11], 8)]),
 "C10": dict(file="c10.cpp", jobs=[J("c10_void", R(1, 7)), J("c10_int", R(1, 7)), J("c10_obj", R(1, 7), 4), J("c10_comb", [1, 2], 2), J("c10_cmp", [1, 2], 4), J("c10_misc", [1, 2], 2), J("c10_wrap", [1], 1, soft=True), J("c10_repeat", [1], 4), J("c10_in_void", [0, 1, 2, 3, 4, 10, 11, 17], 8), J("c10_in_int", [0, 1, 2, 3, 4, 10, 11, 17], 8), J("c10_seq_void", [0, 1, 10, 11, 17], 8)]),
 "C11": dict(file="c11.cpp", jobs=[J("c11_void", [1, 2] + list(R(20, 29)), 4), J("c11_int", [1, 2] + list(R(20, 29)), 4), J("c11_in_void", [1, 2], 4), J("c11_in_int", [1, 2], 4), J("c11_copy", [1, 2], 2), J("c11_moved", [1], 1), J("c11_growth", [1, 2], 4)]),
 "C12": dict(file="c12.cpp", jobs=[J("c12_after_void", R(1, 11), 16), J("c12_after_int", R(1, 11), 16), J("c12_in_void", R(1, 9), 4), J("c12_in_int", R(1, 9), 4), J("c12_states", [1], 2), J("c12_expired_void", R(1, 4), 4), J("c12_expired_int", R(1, 4), 4), J("c12_large", [1], 1), J("c12_ops_void", [0, 1, 3, 4, 5, 6, 7, 11, 13], 8), J("c12_ops_int", [0, 1, 3, 4, 5, 6, 7, 11, 13], 8), J("c12_seq_void", [0, 1, 5, 11, 13], 8), J("c12_seq_int", [0, 1, 7, 10, 13], 8)]),
 "C13": dict(file="c13.cpp", jobs=[J("c13_void", R(1, 8), 16), J("c13_int", R(1, 8), 16), J("c13_handles", [1], 1), J("c13_expired_void", R(1, 5), 4), J("c13_expired_int", R(1, 5), 4), J("c13_wrap", [1], 2, slicedepth=1, soft=True), J("c13_large", [1], 2), J("c13_in_void", [0, 1, 2, 3, 4, 10, 11, 14, 15, 16], 8), J("c13_in_int", [0, 1, 2, 3, 4, 10, 11, 14, 15, 16], 8), J("c13_seq_void", [0, 1, 10, 14, 16], 8), J("c13_seq_int", [0, 10, 11, 14, 15], 8)]),
 "C14": dict(file="c14.cpp", jobs=[J("c14_cat_void", list(R(1, 4)) + [10, 11], 2), J("c14_cat_int", list(R(1, 4)) + [10, 11], 2), J("c14_void", R(1, 10), 16), J("c14_int", R(1, 10), 16), J("c14_obj", R(1, 10), 16), J("c14_eq", [1, 2, 20, 21, 22], 16), J("c14_sig", R(1, 8), 8)]),
 "C15": dict(file="c15.cpp", jobs=[J("c15_kinds", R(1, 14), 4), J("c15_members", list(R(1, 9)) + list(R(30, 37)), 4), J("c15_which", R(1, 6), 1), J("c15_state", [1], 1), J("c15_data", R(1, 6), 1), J("c15_results", R(1, 7), 1), J("c15_arity", [1], 1)]),
 "C16": dict(file="c16.cpp", jobs=[J("c16_two", list(R(1, 16)) + [30, 31], 8), J("c16_three", list(R(1, 16)) + [30, 31], 8), J("c16_four", list(R(1, 16)) + [30, 31], 8), J("c16_fail", [1], 1), J("c16_nested", [1], 1), J("c16_wrap", [1], 2, slicedepth=1, soft=True), J("c16_shared", [1], 1), J("c16_list", [1], 1), J("c16_threads", R(1, 6), 2, threads=True), J("c16_threads3", R(1, 6), 8, threads=True, args_quick=["-preempt", "1"], args_thorough=["-preempt", "2"])]),
 "C17": dict(file="c17.cpp", jobs=[J("c17_int", R(1, 29), 8), J("c17_obj", R(1, 29), 8), J("c17_conv", R(1, 29), 8), J("c17_bool", R(1, 29), 2), J("c17_ptr", R(1, 29), 2), J("c17_ll", R(1, 29), 2), J("c17_refs", R(1, 11), 4), J("c17_void", [1], 1), J("c17_special", R(1, 15), 1)]),
 "C18": dict(file="c18.cpp", jobs=[J("c18_machine", list(R(1, 26)) + [40 + x for x in range(26) if x not in (15, 18, 25)], 8), J("c18_scalar", [1, 2], 1), J("c18_results", [1], 2)]),
 "C19": dict(file="c19.cpp", jobs=[J("c19_" + t, [1, 2, 3, 4], 1) for t in "int uchar bool unsigned ll enum ptr cls".split()] + [J("c19_" + t, [1, 2, 3], 1) for t in "ref cref refcls crefcls".split()] + [J("c19_" + t, [1], 1) for t in "laws lawscls void results".split()]),
 "C20": dict(file="c20.cpp", jobs=[J("c20_" + t, [1, 2] + list(R(10, 17)), 1) for t in "int uchar cls".split()] + [J("c20_" + t, [1, 2, 3], 1) for t in "rint rcls".split()] + [J("c20_" + t, R(1, 7), 1) for t in "ref cref refobj".split()] + [J("c20_" + t, [1], 1) for t in "moves mutref void exc".split()]),
 "C24": dict(file="c24.cpp", jobs=[J("c24_reenter_void", list(R(1, 9)) + list(R(20, 28)), 4), J("c24_reenter_int", list(R(1, 9)) + list(R(20, 28)), 4), J("c24_signal_void", [1, 2, 3, 4, 20, 23, 25, 26, 27, 28], 2), J("c24_signal_int", [1, 2, 3, 4, 20, 23, 25, 26, 27, 28], 2), J("c24_hist_void", R(1, 9), 8), J("c24_hist_int", R(1, 9), 8), J("c24_chain", [1, 2, 3], 1), J("c24_in_void", [0, 1, 2, 7, 8, 10, 11, 13, 14, 15, 17], 8), J("c24_in_int", [0, 1, 2, 7, 8, 10, 11, 13, 14, 15, 17], 8), J("c24_seq_void", [0, 1, 2, 10, 11], 8), J("c24_seq_int", [0, 7, 8, 10, 11], 8), J("c24_dup_void", [0, 1, 2, 10, 11], 8)]),
 "C21": dict(file="c21.cpp", jobs=[J("c21_pairs_void", R(1, 12), 16, threads=True, args=["-preempt", "2"]), J("c21_pairs_int", R(1, 12), 8, threads=True, args=["-preempt", "2"]), J("c21_slot", list(R(1, 11)) + list(R(20, 31)), 16, threads=True, args_quick=["-preempt", "1"], args_thorough=["-preempt", "2"]), J("c21_gate", R(2, 12), 8, threads=True), J("c21_gate_int", R(2, 12), 8, threads=True), J("c21_cross", [1,2,4,10,11], 4, threads=True), J("c21_three", R(1, 4), 8, threads=True, args_quick=["-preempt", "1"])]),
 "C22": dict(file="c22.cpp", jobs=[J("c22_then_void", R(1, 8), 8, threads=True, args_quick=["-preempt", "1"], args_thorough=["-preempt", "2"]), J("c22_then_int", R(1, 8), 8, threads=True, args=["-preempt", "2"]), J("c22_observe", R(1, 8), 4, threads=True), J("c22_observe_int", R(1, 8), 4, threads=True), J("c22_change", list(R(1, 5)) + [30], 8, threads=True, args=["-preempt", "2"]), J("c22_three", [1, 2, 3, 30], 8, threads=True, args_quick=["-preempt", "1"], args_thorough=["-preempt", "2"]), J("c22_slot", [1, 2, 3, 4], 4, threads=True, args=["-preempt", "2"])]),
 "C23": dict(file="c23.cpp", jobs=[J("c23_one_int", list(R(1, 8)) + [20, 21], 4, threads=True), J("c23_one_void", list(R(1, 8)) + [20, 21], 4, threads=True), J("c23_twoslots", list(R(1, 8)) + [20, 21], 4, threads=True), J("c23_owners", list(R(1, 8)) + [20, 21], 8, threads=True, args=["-preempt", "2"]), J("c23_workers", list(R(1, 8)) + [20, 21], 8, threads=True, args_quick=["-preempt", "1"], args_thorough=["-preempt", "2"]), J("c23_workers_void", list(R(1, 8)) + [20, 21], 8, threads=True, args_quick=["-preempt", "1"], args_thorough=["-preempt", "2"]), J("c23_data", [1, 2], 1, threads=True)]),
}
for _k, _v in PROPS.items(): _v["bounds"] = dict(quick=BOUNDS[_k][0], thorough=BOUNDS[_k][1])
