"""Writes MANIFEST.json."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

sys.path.insert(0, HERE)
from vlib import registry  # noqa: E402

TV = 'TLA+ specification evaluated by TLC over recorded runs of the real code (trace validation), inputs enumerated and random'
NOTE = {
    'C01': ('TLA+ evaluator of the schema language (VSchema), TLC checks verdicts recorded from the library', 'Every truth combination of children is enumerated for each applicator and nesting of two; beyond that random schemas. Trusts the TLA+ semantics, TLC, RapidJSON/nlohmann as document holders.'),
    'C02': ('TLA+ evaluator of the schema language (VSchema), TLC checks verdicts recorded from the library', 'Exhaustive over a universe of member names and keyword combinations, random beyond. Regular expressions are specified for a generated grammar only.'),
    'C03': ('TLA+ evaluator of the schema language (VSchema), TLC checks verdicts recorded from the library', 'Exhaustive around every length boundary up to five elements, random beyond.'),
    'C04': ('TLA+ evaluator with exact decimal arithmetic (VNum), TLC checks verdicts recorded from the library', 'Exhaustive over a grid of bounds and values, random beyond; numbers of at most 15 digits (integers up to 19 where the library keeps them), divisors of at most 8.'),
    'C05': ('TLA+ grammar and calendar (VFormat), TLC checks verdicts recorded from the library', 'Exhaustive over calendar and clock boundaries, mutations of accepted strings beyond; strings up to a few KB.'),
    'C06': ('TLA+ reference semantics (VRef) and loader state machine (VLoader) model checked by TLC; TLC checks recorded loads and verdicts', 'VLoader is checked exhaustively for documents of three nodes and reference chains of up to six and replayed into the library; larger documents are random.'),
    'C07': ('TLA+ state machine of fetching (VFetch) model checked by TLC, its behaviours replayed; TLC checks recorded fetch and free histories', 'All reference graphs over two remote documents with all fetch failures, random graphs beyond; run under AddressSanitizer.'),
    'C08': ('TLA+ specification, TLC checks that paired runs of the library agree', 'Random schemas of every keyword and draft in four modes; schemas with invalid regular expressions are excluded.'),
    'C10': ('TLA+ weak conversions (VValue) in the schema evaluator, TLC checks verdicts recorded from the library', 'Exhaustive over keywords x convertible literals, random beyond.'),
    'C11': ('TLA+ value and schema semantics, TLC checks the trees, conversions and verdicts recorded through eight adapters and their pairs', 'Random trees and schemas; strings well-formed Unicode, integers beyond 2^53 for the libraries that keep them.'),
    'C12': ('TLA+ deep equality (its laws checked by TLC), TLC checks comparisons recorded for all pairs of libraries', 'All pairs of a universe of 49 small values for all 64 pairs of libraries, random families beyond.'),
    'C16': ('TLA+ well-formedness of schemas (VParse), TLC checks recorded loads', 'Every keyword x every shape of value x positions enumerated, random mutations beyond, under AddressSanitizer.'),
    'C17': ('TLA+ pointer resolution (VRef), TLC checks recorded resolutions', 'All pointers up to a length over a critical alphabet, random beyond.'),
    'C18': ('TLA+ RFC 3986 resolution (VUri), TLC checks recorded resolutions', 'All references up to a length over a critical alphabet, random beyond; within the forms uri.md promises.'),
    'C19': ('TLA+ UTF-8 automaton (model checked by TLC) and trace validation of the recorded counts', 'All byte-class strings up to a length, random beyond, under AddressSanitizer.'),
    'C21': ('TLA+ reference semantics with unfolding, loader state machine model checked by TLC; TLC checks recorded loads and verdicts', 'Every reference graph up to a bound enumerated; each case runs with a time limit in a child process.'),
    'C23': ('TLA+ evaluator parameterised by draft, TLC checks verdicts recorded from the library', 'Enumerated draft-specific keywords and random schemas in the three drafts.'),
}
NOTE.update({
    'C09': ('TLA+ state machine of error queues (VQueue) whose behaviours are replayed; TLA+ evaluator with error locations checks recorded errors', 'All histories of two queues up to four operations and long simulated ones; errors of enumerated and random schemas compared as multisets of (pointer, context).'),
    'C13': ('TLA+ state machine of sources, schemas and parsers (VAlias) model checked by TLC, its behaviours replayed under AddressSanitizer; TLC checks the recorded verdicts', 'Every interleaving up to the bound, long simulated ones with three schemas; schemas, documents and libraries are random instances.'),
    'C14': ('TLA+ state machine of schema ownership (VLife) model checked by TLC, its behaviours replayed under AddressSanitizer with counted and refused memory', 'Exhaustive for two schemas and four operations, simulated to thirty with every kind of constraint; loading with every single memory request refused once.'),
    'C15': ('TLA+ state machine of validators (VSession) model checked by TLC, its behaviours replayed; TLC checks every distinct recorded result against the evaluator', 'Every call sequence up to the bound, simulated sequences of forty calls on four validators; schemas and documents are random instances.'),
    'C20': ('TLA+ specification of builder calls, verdicts and errors of custom keywords (TCustom) checked by TLC over recorded loads and validations', 'Random schemas with several custom keywords, failing builders and moved schemas under AddressSanitizer, with a census of every object.'),
    'C22': ('TLA+ value and schema semantics with weak conversions; TLC checks trees and verdicts recorded from the adapters', 'Keywords x literals x containers enumerated, random trees and schemas beyond; an empty property tree node counts as an empty array.'),
})
NOTE['C24'] = ('TLA+ state machine of overlapping calls and the objects they touch (VShare) model checked by TLC, its behaviours replayed by real threads under ThreadSanitizer; TLC checks every recorded result against the evaluator',
               'Every way in which the calls of two threads can overlap up to the bound, simulated histories of four threads and forty calls; libraries whose code the sanitizer sees. Trusts ThreadSanitizer to see unordered accesses.')
NOTE['C25'] = ('TLA+ grammar and meaning of JSON texts (VJson); TLC decides for every recorded file what reading it has to give and compares the tree',
               'All sequences of up to three tokens exhaustively, random spellings and mutations beyond; numbers of at most 15 digits, no NUL, no lone surrogates, no duplicate names. Lenient readers are held to refuse only what no reader would take.')
NOTE['C26'] = ('TLA+ specification of an engine with a pattern language of its own (VEngine) below the evaluator (VSchema); TLC checks recorded verdicts, and with engines that throw that no verdict depends on what was not said (TEngine)',
               'Every place a pattern can stand x a list of patterns, engines that refuse or give up in every place, random schemas; boost::regex on patterns and formats without line breaks.')
NA = {}


def main():
    checks, na = [], []
    props = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
    for p in props:
        if p in registry.CHECKS:
            t, n = NOTE[p]
            checks.append({'property': p, 'quick_cmd': 'python3 check.py ' + p, 'thorough_cmd': 'python3 check.py %s --thorough' % p,
                           'technique': t, 'level': 'model_checking', 'level_note': n})
        else:
            na.append({'property': p, 'reason': NA.get(p, 'Check under construction.')})
    json.dump({'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na}, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)


main()
