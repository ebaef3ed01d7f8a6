"""What each check's verdict covers, and what lies outside it. Exact sizes are
the -D options of its jobs (evidence/<id>.json lists them all)."""
B = {
'C01': '2 objects with arbitrary references, data and roots at every mix of ages followed by 2 collections of any generation; all mutator programs of 3 (thorough 4) steps; full collections over 8-10 objects of chosen sizes with any live/dead pattern (60 objects, 8 symbolic, in a larger region); graphs deep enough for several chunks of the work list used in marking; escalation with an almost full older generation; 1, 2, 3 generations; 2 KiB and 4 KiB regions. Outside: larger graphs, default region size, more than 3 generations (C02 has 5).',
'C02': 'one store from any of up to 20 old holders placed over all cards of 1-2 regions (including the last word, objects spanning cards, and an exactly full region) or an array element or the user value, 1-2 later collections of any generation; 2, 3 and 5 generations; 128-byte cards (1 KiB in one job). Outside: other card/region size ratios, longer histories.',
'C03': 'density after full collections of graphs of 2-3 objects with arbitrary references and ages, 1-3 generations; 30-60 rounds of allocation with symbolic replacement pattern under a region limit just above the live data; every array request that fits a region after part of the heap was filled. Outside: unbounded running time (the rounds are a finite prefix), larger heaps.',
'C04': '1-2 requests of every kind (fixed, dynamic description, reference/data array of chosen lengths), symbolic dirty contents, at every fill level of a 4 KiB region near full, any preceding collection, regions left by an exited thread; every 64-bit array length and element sizes 1,2,8,24,4096 for the overflow cases. Outside: other element sizes.',
'C05': 'every bitmap of an object of up to 7 words; objects of up to 138 words with references at every position/at every bitmap-word boundary; arrays of 0-68 (300) elements; declared types wider than one bitmap word. Outside: objects wider than 3 bitmap words.',
'C06': 'every arity of GGC_PUSH_1..15 and GGC_PUSH_N, scoped and manual, two nesting levels, every exit kind; all programs of 3 (4) steps over the C++ wrappers; C with/without cleanup support, C++ both ways. Outside: longjmp, C++ exceptions, deeper nesting.',
'C07': 'all programs of 4-5 (6) steps over register/enter/leave/allocate/collect; both collectors, 1-3 generations, C and C++. Outside: longer programs.',
'C08': '2-3 objects with finalizers at chosen ages and liveness, histories of 2-3 events of 4-6 kinds; finalizers which allocate or resurrect; 1-3 generations. Outside: longer histories.',
'C09': 'every 64-bit tagged word in every slot of 1-2 objects, an array element, user value and two roots; every tag byte of a 3-word object; 1-2 collections, 1-3 generations, with and without debug checks. Outside: tagged words whose low bits are clear (not tagged by definition).',
'C10': 'stack depth up to 4 (12 with external tags), every word content, live part at every position, all tag groupings; collections by the owner, or by another thread while it is blocked or yields; both collectors. Outside: deeper stacks.',
'C11': '2 (3) threads, 1-2 operations each out of 12, involuntary switches at every synchronisation operation, at most 2 (2 threads) or 1 (3 threads) of them, all choices when a thread blocks; both collectors, 1-3 generations; in the fine jobs also a switch before any access to shared collector state (1-2 such). Outside: more preemptions, races on heap objects themselves, weak memory, more threads. Thorough: 3 preemptions.',
'C12': '1-2 workers, up to 2 main-thread actions around and 1-2 in each life, at most 1-2 preemptions, up to 2 refused creations; 12 rounds of create/join for memory; both collectors; fine jobs as in C11. Outside: more threads alive at once, more preemptions.',
'C13': '1-3 operations of every kind over two lists of initial lengths 0-3, every element value, collections before/inside each operation, or a full collection at every allocation with dead memory overwritten; both collectors. Outside: longer histories.',
'C14': 'up to 5 puts (with a get, clone) with arbitrary 64-bit keys, hashes and values, any equality pattern, through the first growth; collections before/inside operations, or at every allocation with dead memory overwritten; both collectors. Outside: second growth, more than 5 distinct keys.',
'C15': 'as C01, C03, C04, C05, C08, C09 with the portable collector: 2-object graphs, 3-4-step programs, 8-10 chosen sizes, 60 rounds. Outside: as there.',
'C16': '1-5 requests (optional or mandatory) and handed-back generations; refusals at any point; malloc blocks at every 16-byte placement, break at every byte offset (4 KiB range) and moved by others by 1-3000 bytes at any point, mmap at every page placement of 16 KiB regions; two threads requesting (2 preemptions). Outside: Windows VirtualAlloc, other region sizes.',
'C17': 'the correct-program jobs of C01, C02, C07, C08, C10, C11, C12 with checks on; every wrong guard value in every live object (or description) of a 5-object graph at every age, own or of a blocked/yielding thread, any generation collected. Outside: as there.',
'C18': '2 participants 3 rounds 2 preemptions; 3 participants 2 rounds 1 preemption; 4 participants 2 rounds with free choices for the first 6 blockings; reuse, re-initialisation with any count up to N, destruction by the first one released; and the collector running on it. the fine jobs also switch before any access to the fields of the barrier. Outside: more participants/preemptions, weak memory.',
}
