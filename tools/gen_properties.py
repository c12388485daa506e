import json
S="signals.hpp"; O="optional.hpp"
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,state=None,obs=None):
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs or [],hook_needed=None)))
p("C01","Emission runs exactly the active slots, once each, in the documented order",
 "Emitting a signal invokes every slot that is connected and not blocked exactly once, and no other slot. The order is connection order, except that removing a slot moves the most recently placed (last) slot into the vacated position, as the README documents. Operations on one slot or one signal never change whether, or in what order, slots other than those just described are invoked.",
 ["histories","inputs"],"every finite sequence of connect, disconnect through a connection, disconnect by callable, block, unblock and emit on any number of slots and signals",
 "The tests run a few fixed sequences with at most four slots and mostly look at one combined value; bookkeeping errors (a stale position after a removal) need a particular order of removals.",
 [S],[("append on connect; swap-with-last removal that re-records the moved slot's position","signals.hpp: add_slot, remove_slot, erase"),("iteration over a snapshot","signals.hpp: signal::operator(), slot_iterator")],
 [dict(name="slot list and per-slot position",meaning="which slots are connected and where each sits",where="signals.hpp: signal, slot_state")],["slot bodies (call log)"])
p("C02","Every slot receives the emission's arguments intact",
 "In one emission every invoked slot receives the argument values the caller passed, no matter how many slots ran before it or how they take their parameters (by value, by const reference, by rvalue). Parameters the signal declares as references refer to the caller's own object, so a slot's changes are seen by later slots and by the caller. The caller's own by-value argument objects are never modified by an emission.",
 ["inputs","histories"],"all argument values, for scalar, class-type, reference and mixed parameter lists of zero to five parameters and any number of slots",
 "Tests only pass ints and references; no test connects two slots that take a class-type parameter by value.",
 [S],[("argument tuple built once per emission and re-used for each slot","signals.hpp: signal::operator(), slot_iterator::do_invoke"),("perfect forwarding into the callable","signals.hpp: slot::operator(), invoke_helper")],None,["arguments as seen in slot bodies"])
p("C03","The emission result is the combiner's result over the slots' results in order",
 "With the default combiner the result of an emission is the value returned by the last invoked slot that produced a value, and is disengaged when no slot produced one (no slots, all blocked, all disconnected, or void slots). A user-supplied combiner sees one element per connected slot in invocation order, each slot is invoked when its element is dereferenced and not otherwise, and the emission returns exactly what the combiner returns. An element that belongs to a blocked, disconnected or expired slot reads as a disengaged optional.",
 ["inputs","histories","programs"],"all slot return values (including zero, false, negative and empty), all subsets of blocked, disconnected or expired slots, and lazy, short-circuiting or aggregating combiners",
 "Tests sample a handful of non-zero return values with all slots active; a result that is confused with 'no value' (0, false) is never tried.",
 [S,O],[("default combiner skips disengaged results","signals.hpp: optional_last_value"),("invoke on dereference","signals.hpp: slot_iterator::operator*")],None,["value returned by the emission"])
p("C04","A connection truthfully reports and ends exactly its own slot's connection",
 "A connection returned by connect reports connected until its slot is disconnected by any means (this or another copy of the connection, a scoped connection, disconnect by callable, destruction of the signal, expiry of a tracked object) and disconnected ever after. Disconnecting through it returns true exactly when it ended a live connection, after which that slot is never invoked again by any emission that reaches it later; a second disconnect returns false and changes nothing. Default-constructed and moved-from connections are inert, and no operation on one connection affects a slot other than its own.",
 ["histories"],"every sequence of operations on any number of connections, copies and moves of them, on one or several signals",
 "The tests disconnect a slot twice in one fixed order; they never disconnect through a connection after the same slot was removed another way while its storage is still in use.",
 [S],[("atomic once-only disconnect flag","signals.hpp: slot_state::disconnect, slot::disconnect"),("weak reference from connection to slot","signals.hpp: connection"),("position re-recorded on removal","signals.hpp: remove_slot, erase")],None,["return values of connection members","slot bodies"])
p("C05","Blocking silences exactly the blocked slot until it is unblocked",
 "A slot is blocked if and only if the last blocking action on it was a block: block() or the creation of a blocker blocks it, unblock() or the end of a non-empty blocker (destruction, or being assigned over) unblocks it. While blocked the slot stays connected, keeps its position and is not invoked by any emission; no other slot is affected, and moved-from, default-constructed or orphaned blockers do nothing. Moving or swapping blockers moves the responsibility for unblocking without itself changing whether any slot is blocked, except that a slot whose blocker is assigned over becomes unblocked.",
 ["histories"],"every sequence of block, unblock, blocker creation, move, assignment, swap and destruction, interleaved with emissions and disconnects, over several slots and connection copies",
 "One test blocks and unblocks two of three slots once; blockers are not tested at all.",
 [S],[("blocked flag shared by all handles of the slot","signals.hpp: slot_state"),("RAII blocker","signals.hpp: connection_blocker, connection::blocker")],None,["connection::blocked","slot bodies"])
p("C06","A scoped connection disconnects its slot exactly when its ownership ends",
 "A scoped connection disconnects its slot when it is destroyed or assigned over, and never before. Release, move construction, move assignment and swap hand the slot over without disconnecting it and leave the source owning nothing (or, for swap, the other slot). It never disconnects any slot other than the one it owns.",
 ["histories"],"every sequence of creation, conversion from a plain connection, move, swap, release, reassignment and destruction of scoped connections",
 "Three short fixed scripts are tested; chains of moves and reassignments over slots that still have owners are not.",
 [S],[("disconnect in destructor and on assignment; move empties the source","signals.hpp: scoped_connection")],None,["connection::connected","slot bodies"])
p("C07","Disconnecting by callable removes all and only the equal slots",
 "Disconnecting by callable (function, function object, object and member pair, or slot) removes every connected slot holding an equal callable, no other slot, and returns how many it removed; the connections of removed slots then report disconnected. Slots of a different callable type never match. If matching needs a comparison the callable type does not support, not_comparable_exception is thrown, every slot that was not removed stays connected, and the signal stays usable.",
 ["histories","inputs"],"all slot lists and all equality patterns among the held callables, including adjacent, first, last and duplicate matches",
 "The tests remove functions connected one to three times in a row; mixed equality patterns and removals after reordering are not covered.",
 [S],[("compare and swap-remove loop","signals.hpp: erase"),("type-safe comparison","signals.hpp: slot_func::equals, slot_pmf::equals, try_equals")],None,["return value of disconnect","slot bodies"])
p("C08","Tracked objects are never called dead, kept alive, or destroyed mid-call",
 "A slot bound to a shared or weak pointer runs only while the object is alive and reports disconnected from the moment the last outside owner is gone (or, if later, a call in progress on it ends). The slot does not extend the object's lifetime beyond a call in progress, but does keep the object alive for the duration of that call even if the last outside owner lets go during it. After expiry invoking the slot, alone or through a signal, yields a disengaged result and has no effect.",
 ["histories","inputs"],"every order of connects, releases (outside or inside a slot call), emissions and disconnects over several objects and slots",
 "Tests release the only owner between two emissions; release during a call and several slots sharing an object are not tested.",
 [S],[("weak pointer locked for the call","signals.hpp: slot_pmf_tracked"),("conversion to weak pointer","signals.hpp: to_weak, slot constructors")],None,["slot bodies","object destructors"])
p("C09","Slots may freely reenter the signal during an emission",
 "During an emission a slot may connect, disconnect (itself, other slots, by connection or by callable), block, unblock or emit the same signal recursively without deadlock, crash or corruption. A slot connected during an emission is first invoked by the next emission; a slot disconnected or blocked before its turn is skipped; all other slots present at the start are invoked exactly once. A callable is not destroyed while it is running.",
 ["histories"],"every choice of actions taken by slots at any depth of nested emission (bounded), over all slot lists",
 "No test changes the signal from inside a slot except the crossed emission test, which only emits.",
 [S],[("copy-on-write snapshot taken under the lock, lock released before slots run","signals.hpp: read_slots, signal::operator(), cow_ptr::detach"),("connected and blocked re-checked per call","signals.hpp: slot::operator()")],None,["slot bodies"])
p("C10","An exception leaving a slot, combiner or comparison leaves the signal intact",
 "An exception thrown by a slot or combiner during an emission propagates unchanged to the emitter, and no slot after the throwing one is invoked by that emission. The set of connected slots, their order and their blocked states are unaffected, no lock stays held, nothing is leaked, and the signal can be emitted, modified and destroyed afterwards. The same holds for an exception thrown while callables are compared during a disconnect by callable, except that already matched slots may have been removed.",
 ["fault_sequences","histories"],"every throwing point: any slot, any invocation, any comparison, nested emissions, with any connect or disconnect around it",
 "No test throws from a slot, combiner or comparison inside a signal.",
 [S],[("RAII locks and snapshot","signals.hpp: signal::operator(), read_slots, erase")],None,["exception seen by the caller","later emissions"])
p("C11","A failed connect has no effect",
 "If memory runs out at any point during connect (or the callable's copy throws), the exception reaches the caller and the signal behaves exactly as if connect had not been called: same slots, same order, same states, nothing leaked, no lock held. A later connect succeeds normally. This also holds when the connect is made from inside a slot during an emission.",
 ["fault_sequences","histories"],"every allocation and copy performed by connect as the failing one, from every reachable signal state in bound",
 "Tests never fail an allocation.",
 [S],[("allocate first, publish last","signals.hpp: signal::connect, add_slot, cow_ptr::detach")],None,["later emissions"])
p("C12","Connections outlive their signal safely",
 "After a signal is destroyed every connection, scoped connection and blocker made from it is inert: it reports not connected, disconnecting returns false, and no operation touches freed memory. A slot may destroy the signal that is invoking it: the emission under way still finishes safely, and connections used later in that emission behave the same way. Destroying a signal destroys every callable it holds exactly once.",
 ["histories"],"every order of destroying the signal relative to uses and destructions of its connections and blockers, inside or outside an emission",
 "No test uses a connection after its signal is gone or destroys a signal during an emission.",
 [S],[("weak references from handles to slots","signals.hpp: connection, connection_blocker"),("back pointer from slot to signal","signals.hpp: slot, signal destructor")],None,["connection members","memory safety"])
p("C13","Moving a signal moves its connections",
 "After move construction or move assignment the destination signal invokes exactly the slots the source had, in the same order and blocked states, and every existing connection to them keeps working (reports, blocks, disconnects) on the destination, also after the source is destroyed. Slots the destination held before a move assignment are disconnected. The source is left valid, with no slots, and can be connected to, emitted, assigned to or destroyed.",
 ["histories"],"every sequence of connects, moves (construct, assign, chains, into non-empty targets), disconnects and emissions over several signals",
 "No test moves a signal.",
 [S],[("move operations transfer the list and re-bind the slots","signals.hpp: signal(signal&&), operator=(signal&&)")],None,["slot bodies","connection members"])
p("C14","Slots are values: copy, move, assign, compare and invoke consistently",
 "A copy of a slot (constructed or assigned, from const or non-const, empty or not) is equal to the original when its callable is comparable, gives the same results when invoked, and shares no connection or block state with it afterwards; a moved-from slot is empty. Equality is an equivalence relation that holds exactly when both slots are empty or hold equal callables of the same type. Invoking an empty, blocked or expired slot yields a disengaged result without calling anything, and connecting an empty slot adds nothing.",
 ["histories","inputs"],"every sequence of slot constructions, copies, moves, assignments, comparisons, block changes and invocations over all callable kinds",
 "Tests compare slots built independently from the same function; slot copies and assignments are never exercised (some did not even compile or recursed forever).",
 [S],[("clone through the implementation interface","signals.hpp: slot copy and assignment, slot_impl::clone"),("type-checked equality","signals.hpp: operator==, equals")],None,["slot members"])
p("C15","Invoking any supported callable through a slot equals calling it directly",
 "For functions, function objects, lambdas, pointers to member functions and to data members (bound to an object pointer, an object copy, a reference wrapper or a shared pointer, including virtual calls through a base), invoking the slot with some arguments calls the bound callable once with those arguments and yields the value the direct call would return. Slots bound to an object copy use their own copy; pointers and reference wrappers use the original object. Callable objects are stored by value and keep their own state between invocations.",
 ["inputs","programs"],"all argument and object states, for each supported callable kind and void or non-void results",
 "Tests call each kind once with one pair of small positive numbers.",
 [S],[("invoke dispatch","signals.hpp: invoke_helper, slot_func, slot_pmf, slot_pmf_tracked")],None,["slot results","object state"])
p("C16","Copy-on-write handles never see each other's writes",
 "A value reached through one copy-on-write handle is never changed by a write made through another handle, whatever copies, moves and assignments happened before. Read-only access never copies the value, and writing through the only handle of a value writes in place. A value is destroyed exactly once, when its last handle is gone; empty handles are safe to copy, move, assign and test.",
 ["histories","inputs"],"every sequence of copy, move, assign, read, write and destroy over several handles and all written values",
 "Two scripted tests with one write each.",
 [S],[("detach on non-const access when shared","signals.hpp: cow_ptr")],None,["values read through handles"])
p("C17","An optional holds exactly the last value put into it, or nothing",
 "After any sequence of construction, assignment (from value, optional, convertible optional or nullopt), emplace, swap, move, copy and reset, an optional is engaged exactly when the last such operation put a value in, and then holds that value. Copying or converting never changes the source, moving leaves the source engaged state unchanged, swap exchanges both state and value, and conditional construction engages exactly when the condition is true. This holds for scalar and for class types alike, including self-assignment.",
 ["histories","inputs"],"every operation sequence in bound over two or three optionals and all values, for scalar and non-trivial element types",
 "The repository has no test of the optional type other than comparing results with literals.",
 [O],[("scalar and aligned-storage implementations","optional.hpp: tc_optional_base, optional_base, optional")],None,["has_value, value"])
p("C18","An optional constructs and destroys its element exactly once",
 "Every element object an optional creates is destroyed exactly once, no later than the optional itself, and never accessed outside its lifetime. If an element operation throws, the exception reaches the caller, nothing is leaked or destroyed twice, and the optional is disengaged if it failed while constructing (including emplace) or still engaged if it failed while assigning over a value. reset and nullopt assignment destroy the element at once.",
 ["fault_sequences","histories"],"every operation sequence in bound and every element constructor or assignment as the throwing one",
 "No test uses an element type with observable lifetime.",
 [O],[("engaged flag set after construction, cleared on destruction","optional.hpp: optional_base::construct, destroy, emplace_assign, assign")],None,["element constructor and destructor calls"])
p("C19","Optional comparisons form one consistent total order with nullopt least",
 "Two optionals are equal when both are disengaged or both hold equal values; a disengaged optional orders before every engaged one, and engaged ones order by value. All six operators agree with each other and with this order for optional against optional, optional against nullopt and optional against value, in either operand order. They never modify or access the value of a disengaged optional.",
 ["inputs"],"all pairs of engaged states and values, all operators and operand orders, value and reference optionals",
 "Tests only use == against engaged results and one > in a combiner.",
 [O],[("relational operator overloads","optional.hpp: Relational operators")],None,["operator results"])
p("C20","Accessing an optional yields its value, the fallback, or bad_optional_access",
 "On an engaged optional every accessor (dereference, arrow, value, get, pointer access, value_or and get_value_or) gives the held object itself or a copy of its value as documented; on a disengaged one value() throws bad_optional_access, the or-accessors give the fallback and the pointer accessor gives null. Mutation through a reference accessor changes the held value, reference optionals always alias the bound object and rebind on assignment instead of assigning through, and void optionals are always disengaged. No accessor other than on an rvalue changes the optional.",
 ["inputs","histories"],"all engaged states, held values and fallbacks, for scalar, class, reference and void optionals",
 "Tests dereference only engaged results.",
 [O],[("accessors","optional.hpp: optional::value, value_or, get, get_ptr; optional<T&>; optional<void>")],None,["accessor results"])
p("C21","Concurrent use of one signal is free of data races, deadlocks and crashes",
 "Any number of threads may at the same time emit, connect, disconnect (by connection or callable), block, unblock, query and copy handles of the same signal, each thread using its own handle objects, without data race, deadlock, use of freed memory or abnormal termination. This includes slots that themselves connect, disconnect or emit, on the same or on another signal. No thread ever waits for a slot running in another thread.",
 ["schedules","histories"],"all interleavings (bounded threads and operations) of all combinations of these operations",
 "Three stress tests sample a few schedules of emit, connect and scoped disconnect on the scheduler the machine happens to have.",
 [S],[("mutex around list access, copy-on-write snapshot for emission","signals.hpp: add_slot, remove_slot, erase, read_slots, cow_ptr::detach"),("atomic slot flags","signals.hpp: slot_state")],None,["memory accesses, lock operations"])
p("C22","Concurrent connects, disconnects and blocks all take effect exactly once",
 "When threads connect and disconnect concurrently, afterwards the signal holds exactly the slots that were connected and not disconnected: none lost, none duplicated, none removed in place of another. Of several concurrent disconnects of the same slot exactly one reports having done it. An emission that starts after a connect, disconnect, block or unblock has returned observes it, and every slot connected and unblocked throughout an emission is invoked exactly once by it.",
 ["schedules","histories"],"all interleavings (bounded) of concurrent connect, disconnect by connection, disconnect by callable, block and emit",
 "The threaded tests check one total count and never disconnect the same or neighbouring slots concurrently.",
 [S],[("locked list updates, atomic exchange on the connected flag, identity of the removed slot","signals.hpp: add_slot, remove_slot, erase, slot_state::disconnect")],None,["slot bodies after join","return values"])
p("C23","Tracked objects stay safe when released by another thread",
 "When the last owner of a tracked object lets go in one thread while other threads emit, query or disconnect, the object is never invoked after its destruction began and never destroyed while one of its slots is running. Each invocation either runs completely on a live object or is skipped with a disengaged result. An emission that starts after the release has completed, with no other call on the object in progress, never invokes it.",
 ["schedules","histories"],"all interleavings (bounded) of release, emission, connection queries and disconnects",
 "Tracked slots are only tested in a single thread.",
 [S],[("weak pointer locked before the call","signals.hpp: slot_pmf_tracked")],None,["slot bodies","object destructor"])
p("C24","Callables are destroyed promptly, exactly once, and may reenter the signal",
 "The signal's copy of a callable is destroyed exactly once: as soon as its slot is disconnected (by connection, scoped connection or callable) if no emission is using it, at the latest when the emissions then under way finish, and otherwise with the signal. No memory or callable is leaked by any sequence of operations. Destructors of callables may themselves use the signal (for example through a scoped connection they own) without deadlock or corruption.",
 ["histories"],"every sequence of connects, disconnects, emissions with self-removal, and destruction, with callables that own connections to the same signal",
 "No test observes destruction of a callable.",
 [S],[("shared ownership by list, snapshots and transient references only","signals.hpp: remove_slot, erase, read_slots, connection::disconnect")],None,["callable copy and destructor counts"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
import jsonschema
sch=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P: jsonschema.validate(x,sch)
print(len(P))
