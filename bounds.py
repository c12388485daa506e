"""The stated bounds of every check, per tier (used in the evidence and in DESIGN.md)."""
COMMON = "Sequential harnesses: no loop or recursion cut-off inside the bounds (a path that makes no progress for 400000 steps is a violation)."
B = {
 "C01": ("operation sequences of length 3 (connect a callable or a member, disconnect, disconnect by key, block, unblock, scoped, recursion through a second signal ...) from every initial signal of up to 3 slots, result types void/int/class; one wide check with 15 slots and 2 removals at any positions; keys, arguments and results are free symbols",
         "as quick with sequences of length 4 on up to 4 initial slots, 17 slots in the wide check; -O1 and -O0 IR"),
 "C02": ("up to 2 slots, each taking its parameter by value / const reference / rvalue; argument contents symbolic; by-value class, lvalue reference, const reference, rvalue reference, move-only, five-argument and zero-argument signatures",
         "up to 3 (by value) and 4 (reference) slots; -O1 and -O0 IR"),
 "C03": ("up to 4 slots (3 for bool and custom combiners) each active, blocked, disconnected or expired; slot results symbolic; default combiner and four custom combiners (collect, stop early, sum, count)", "up to 5 slots; -O1 and -O0 IR"),
 "C04": ("3 operations (2 for int results) over 2 connection handles and 5 slots: connect, copy, move, assign, swap, disconnect, by key, scoped, block, expiry, signal destruction", "4 (3) operations over 3 handles; -O1 and -O0 IR"),
 "C05": ("3 operations over 3 slots and 2 blockers", "4 operations over 3 slots and 3 blockers; -O1 and -O0 IR"),
 "C06": ("3 operations over 2 scoped connections and 3 slots", "4 operations over 3 scoped connections and 4 slots; -O1 and -O0 IR"),
 "C07": ("up to 3 slots of any of the supported callable kinds with symbolic keys, then one disconnect by callable of any kind; 6 slots with arbitrary symbolic keys in c07_many", "2 successive disconnects, 9 slots in c07_many; -O1 and -O0 IR"),
 "C08": ("4 operations (3 for class results) over two tracked objects and their owners (drop, re-own, emit, query, release inside the call, nested emission)", "6 (5) operations; -O1 and -O0 IR"),
 "C09": ("3 or 4 slots, each running an arbitrary reentrant action at its turn, 3 acting slots, one level of recursion, then a second emission", "4 acting slots; -O1 and -O0 IR"),
 "C10": ("2 slots plus the thrower (int results as void, class results 1), an exception at any slot / combiner step / comparison, any further operation", "3 slots, up to 5 compared slots; -O1 and -O0 IR"),
 "C11": ("up to 4 slots present before, one symbolic allocation failure at any allocation of any connect form, or a throwing callable copy; the same from inside a slot", "up to 5 slots, two failures; -O1 and -O0 IR"),
 "C12": ("signal with up to 3 slots destroyed, then 3 (int 2) operations on any handle; destruction from inside any slot of an emission", "4 (3) operations, up to 5 slots; -O1 and -O0 IR"),
 "C13": ("up to 2-3 slots in the source and 1-2 in the destination, move construction or assignment, then 2-3 operations on either signal", "up to 3 and 2 slots, 4 operations; -O1 and -O0 IR"),
 "C14": ("two slot variables of any of the callable kinds (incl. empty, blocked, tracked), 1-2 value operations, equality of any pair and any triple of kinds with symbolic keys", "all kinds on both sides, 2-3 operations; -O1 and -O0 IR"),
 "C15": ("each supported callable kind and binding once, arguments, object contents and results symbolic; call, copy, const, recursion through signal and slot", "as quick; -O1 and -O0 IR"),
 "C16": ("3 operations on 2 handles, 2 on 3 and 4 handles, values symbolic; failing copies; nested values", "4 operations on 2 handles, 3 on 3; -O1 and -O0 IR"),
 "C17": ("2 operations out of 29 on two optionals (int, class), 1 for bool, pointer, long long; reference optionals 2 operations; values symbolic", "3 (2) operations, 4 for references; -O1 and -O0 IR"),
 "C18": ("2 operations out of 26 with one symbolic fault at any element operation", "3 operations; -O1 and -O0 IR"),
 "C19": ("all values of the element types and all engagement states (no bound on values)", "as quick; -O1 and -O0 IR"),
 "C20": ("all values and engagement states for every accessor, one and two accesses", "as quick; -O1 and -O0 IR"),
 "C21": ("two threads with one operation each out of 12 on a signal of 1-2 slots, at most 2 preemptions; a slot that itself operates on the signal against any operation of another thread, 1 preemption; a program lock held around an operation while a slot or a callable's destructor needs it, and two signals whose slots use each other: all interleavings; three threads, 1 preemption", "2 preemptions for acting slots, pairs with a second operation, three threads with all interleavings or until the time limit; -O1 IR"),
 "C22": ("two threads with one operation each (of 8) and an emission each on 1-2 slots, at most 1-2 preemptions; one emitter against one operation: all interleavings; two threads changing a signal of 3 slots, 2 preemptions; three threads, 1 preemption; operations made by slots, 2 preemptions", "2 preemptions everywhere, emissions before and after, 3 slots with three threads; -O1 IR"),
 "C23": ("one thread releasing the last owner against one operation out of 8: all interleavings; two releasing owners, 2 preemptions; two working threads, 1 preemption", "two working threads with two slots, 2 preemptions; -O1 IR"),
 "C24": ("3 slots whose callables' destructors perform any of 9 operations; histories of 2-3 operations; chains of up to 4 callables owning each other's connections", "4 slots, histories of 3, chains of 5; -O1 and -O0 IR"),
}
_IN = "the shared operation machine (harness/inem.h): up to %s slots connected in every supported way, %s, every handle compared with the model after every operation"
_Q, _T = "2 operations made by slots of 2-3 slot signals while the signal is emitting (1 more before it), nested emissions to depth 2", "3 operations inside emissions (or 2 before them), nested emissions to depth 2"
EXTRA = {
 "C01": "scale: 420 slots and long connect/disconnect churn; " + _IN % (3, "%s"),
 "C02": "ten argument types of every category (scalar, enum, pointer, trivially copyable, copy-only, throwing move, shared_ptr) consumed by 1-3 slots in every way, and by 1, 4, 9, 17 and 40 slots in three patterns; emissions nested to depth 2 with other arguments; two threads emitting with different arguments (2 preemptions in quick, all interleavings in thorough)",
 "C03": "up to 130 slots; emissions nested to depth 2; two threads emitting (all interleavings)",
 "C04": "300/600 copies of one connection; " + _IN % (3, "%s"), "C05": "260/600 repetitions of blocking; " + _IN % (3, "%s"), "C06": _IN % (3, "%s"), "C07": "260 slots with matches at strides 1, 2, 3, 7, 16; " + _IN % (3, "%s"),
 "C08": "many tracked slots of one object; " + _IN % (3, "%s"), "C09": "recursion to depths 3, 9, 17, 34, 66 and 130; " + _IN % (3, "%s"), "C10": "repeated failures; " + _IN % (3, "%s"), "C11": "list sizes around every growth of the storage",
 "C12": "17, 70 and 140 slots; " + _IN % (3, "%s"), "C13": "large signals; moves and assignments made by slots of the signal itself: " + _IN % (3, "%s"), "C14": "equality also for void slots",
 "C16": "300/600 handles of one value; two threads with a handle each: all interleavings; three threads: 1 (thorough 2) preemptions",
 "C24": "destruction of every callable counted: " + _IN % (3, "%s"),
}
_SEQ = "; longer sequences over fewer operations on 2-3 slots (4-5 operations in quick, up to 6 in thorough)"
_DUP = "; 3 slots with equal callables"
for _k in ("C01", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C12", "C13", "C24"): EXTRA[_k] += _SEQ
for _k in ("C07", "C09", "C24"): EXTRA[_k] += _DUP
EXTRA["C03"] += "; stateful, move-only and first-value combiners"
EXTRA["C08"] += "; owners that are aliased, null, const, moved, with a custom deleter, or shared_from_this"
EXTRA["C15"] = "reference and move-only results, const objects, ref-qualified overloads, members of arguments"
EXTRA["C17"] = "over-aligned elements, elements with their own operator& or comma, large elements (fixed histories, symbolic values)"
EXTRA["C02"] += "; slots that emit other signals of the same type with 0-2 slots, to depth 3; combiners that visit slots repeatedly, backwards and in two passes"
for _k in ("C07", "C14"): EXTRA[_k] += "; callables passed as lvalue, const lvalue, rvalue or inside a slot, functions and their addresses"
for _k in ("C01", "C04", "C05", "C09", "C10", "C13", "C16"): EXTRA[_k] += "; fixed histories past every 8 and 16 bit count (70000 repetitions, symbolic values)"
EXTRA["C12"] += "; tracked objects expiring around a destruction or assignment over the signal made inside an emission"
EXTRA["C13"] += "; tracked objects expiring before, between or after moves"
EXTRA["C24"] += "; a blocker held between the operations"
EXTRA["C06"] += "; the plain connection a scoped one was made from"
EXTRA["C07"] += "; the slot passed to disconnect may itself be blocked"
EXTRA["C17"] += "; conversions between classes that notice being moved from"
for _k, _x in EXTRA.items():
    q, t = B[_k]; B[_k] = (q + "; also " + (_x % _Q if "%s" in _x else _x), t + "; also " + (_x % _T if "%s" in _x else _x))
