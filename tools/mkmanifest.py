#!/usr/bin/env python3
"""Authoring helper: MANIFEST.json from the table below and the rule modules present."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 'P01': 'field-coverage and must-reach analysis of GC marking over MIR and type definitions',
 'P02': 'liveness and escape dataflow of unrooted heap values across calls that may run Ruby code (MIR)',
 'P03': 'borrow-lifetime dataflow: derived storage pointers live across calls that may run Ruby code (MIR)',
 'P04': 'dominance of kind tests over union payload accesses (interprocedural dataflow on MIR)',
 'P06': 'interprocedural typestate analysis: linear use of branch placeholders and balance of compile-time scope stacks',
 'P05': 'abstract interpretation of operand-fetch and emission sequences per opcode, compared with inst_size',
 'P06': 'interprocedural typestate analysis of compile-time scope stacks and branch placeholders (MIR)',
 'P07': 'must-pass-through dataflow: source location recorded for every raising opcode emitted (MIR)',
 'P08': 'post-dominance of version bumps over method-table mutations (MIR, call graph)',
 'P09': 'post-dominance of version bumps over constant-table mutations (MIR, call graph)',
 'P10': 'interprocedural typestate analysis of frame push/unwind and saved execution state (MIR)',
 'P11': 'interprocedural interval analysis of argument counts (MIR)',
 'P12': 'bit-width interval analysis of machine arithmetic on Ruby integers (MIR)',
 'P13': 'dataflow on the fate of Result<_, RubyError> values (MIR)',
 'P14': 'abstract interpretation of every equality and hash function per kind of object: each hashed component is forced equal on every true path (MIR)',
 'P15': 'abstract interpretation of compiler and handler MIR: special and general instruction sequences have equal transfer functions',
 'P12': 'abstract interpretation of MIR with symbolic integers (exact result terms, overflow and truncation events); bit-precise polynomial evaluation of the small-integer encoding',
 'P22': 'abstract interpretation with linear forms of every stack-pointer assignment; dominance of room checks over frame pushes (MIR)',
 'P16': 'symmetry analysis of the context-switch assembly and typestate of fiber states (MIR)',
 'P17': 'interprocedural typestate analysis of parser modes and scope stacks (MIR)',
 'P18': 'interprocedural typestate analysis of lookahead against reading position (MIR)',
 'P19': 'constant evaluation and pairwise-distinctness / agreement of code tables (MIR)',
 'P20': 'reachability of panicking operations on Ruby-value conversions in builtins (MIR dataflow)',
 'P21': 'provenance dataflow of environment pointers into capturing constructors (MIR)',
 'P22': 'dominance of enforced capacity checks over value-stack writes (MIR)',
}
NA = {}
exec(open(os.path.join(H, 'tools', 'na.py')).read()) if os.path.exists(os.path.join(H, 'tools', 'na.py')) else None
NOTE = 'Decided from rustc MIR of the current tree on every run; the evidence lists obligations, analysed functions and assumptions.'
have = {f[:-3].upper() for f in os.listdir(os.path.join(H, 'sa', 'rules')) if f.startswith('p') and f[1:3].isdigit()}
m = {'version': 1, 'setup_cmd': 'python3 check.py --setup', 'checks': [], 'not_applicable': [],
     'notes': 'check.py PROPERTY compiles /repo with the nightly rustc to textual MIR (cached by a digest of the sources under target/ or work/), builds the program model in sa/ and runs sa/rules/<property>.py. Known findings: known_findings.json.'}
for k in sorted(T):
    if k in have and k not in NA:
        m['checks'].append({'property': k, 'quick_cmd': 'python3 check.py %s --tier quick' % k, 'thorough_cmd': 'python3 check.py %s --tier thorough' % k,
                            'technique': 'static analysis: ' + T[k], 'level': 'other', 'level_note': NOTE})
    else:
        m['not_applicable'].append({'property': k, 'reason': NA.get(k, 'check not built yet')})
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
print(len(m['checks']), 'checks')
