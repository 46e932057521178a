#!/usr/bin/env python3
"""writes MANIFEST.json: a property is claimed when its rules exist"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = 'dataflow analysis over the compiler\'s intermediate representation: '
TECH = {
 'C01': T + 'destination capacity vs. length of every read, index and size guards, name scan, map anchor',
 'C02': T + 'stream typestate (good / failed) through the readers, rejected classes of formats, tags and sizes',
 'C03': T + 'ownership typestate of the opened streams on all exits of the C functions, escaping exceptions',
 'C04': T + 'descriptor typestate and call arguments under the cases of timeout and results',
 'C05': T + 'sequence of written fields vs. sequence of read fields, per format and size',
 'C06': T + 'sequence of saved fields vs. sequence of loaded fields with loop bounds',
 'C07': T + 'field-wise equal/different hypotheses on operator==, dependence of hash functions',
 'C08': T + 'operator terms of the evaluator per predicate kind and value kind',
 'C09': T + 'conditions under which points, candidates and results are kept, provenance of result fields',
 'C10': T + 'two operations in a row on states of known shape, containers modelled with the program\'s own comparison; the second answer vs. the specification for it alone',
 'C11': T + 'allocation size vs. writes, provenance of every field handed out, free/delete pairing',
 'C12': T + 'lock typestate at changes of the trace collection, census of mutable shared state',
 'C13': 'type-level analysis of the declarations (debug information) plus compile-time witnesses, effect analysis of const operations',
 'C14': T + 'definite initialisation of every field on every constructor, copy provenance',
 'C15': 'parser for the Lisp foreign declarations compared with the compiler\'s layouts, enumerators and prototypes',
 'C16': T + 'write sequence and lock typestate of the embedded runtime vs. the reader\'s sequence',
 'C17': T + 'equality and hash lambdas of duplicate removal, condition under which a result is kept',
 'C18': T + 'typestate counting kept points under each limit, order and counter provenance',
 'C19': T + 'decision tree of the memory map, of points and of traces over histories of known length, compared with the specification for every order of the addresses',
 'C20': T + 'conversion and evaluation of predicates of every kind, compared with the documented meaning',
 'C21': T + 'ownership typestate of number objects per kind',
 'C22': T + 'bindings tried and results produced for known candidate lists, compared with the product of the lists',
 'C23': T + 'provenance of the generator state, effects of reading anything that varies, mapping of drawn values onto the considered points',
}
NA = {
 'C24': 'memory sharing is provided by boost::flyweight inside the library; how much memory is used at run time is not visible in the source',
 'C25': 'equivalence of two independent implementations in different languages over all traces and queries; there is no Lisp front end here and no static argument in reach relates them',
}
def main():
    ps = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
    checks = []; na = []
    for p in ps:
        if os.path.exists(os.path.join(V, 'lib', 'rules', p.lower() + '.py')):
            checks.append({'property': p, 'quick_cmd': 'python3 check.py %s --tier quick' % p, 'thorough_cmd': 'python3 check.py %s --tier thorough' % p,
                           'technique': TECH[p], 'level': 'other', 'level_note': LEVEL})
        else: na.append({'property': p, 'reason': NA.get(p, 'not claimed yet')})
    json.dump({'version': 1, 'setup_cmd': 'python3 lib/build.py', 'checks': checks, 'not_applicable': na}, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
LEVEL = ('static analysis of all paths of the listed functions of the current tree: a fixpoint over all executions, relative to the models of std/boost/libc in lib/lib.py; '
         'constructs the rules do not recognise are listed as undecided in the evidence instead of being reported')
if __name__ == '__main__': main()
