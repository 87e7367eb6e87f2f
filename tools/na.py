NA = {
 'P04': 'Kind tests are spread over dispatch functions, class comparisons and values stored by one builtin and read by another (instance variables, cached classes), so that the fact "this object has that tag" often reaches an access through the heap. A dominance rule over MIR with interprocedural facts was built and left ~500 accesses undecided that are right; no sound static argument within reach separates them from wrong ones. Tags and tag tests themselves are covered by P19, marking per tag by P01, hashing and equality per tag by P14.',
 'P20': 'Whether an unwrap of a conversion can fail depends on which classes a program attaches a method to, on singleton and inherited receivers and on values kept in instance variables: run-time facts. The source has several hundred such unwraps, most of them unreachable for reasons outside the program text analysed; flagging all is not a decision. Argument counts (P11), integer ranges (P12) and missing source positions (P07), the other ways a builtin call aborts, are decided.',
 'P21': 'Whether a captured environment is still on the stack is a relation between the run-time position of a frame pointer and the frames popped later, through lists of environments linked at run time; the code decides it by comparing addresses. No abstraction of frame addresses in reach both proves the current code and rejects a wrong move to the heap. Marking of captured environments is covered by P01, frame bookkeeping by P10.',
}
