"""writes levels.json: per property what is proved and what is only bounded"""
import json
import os
import sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, 'tools'))
from table import table     # noqa: E402

# level, what the contracts say together, what stays bounded
L = {
    'C01': ('proof', 'tokenising, line splitting of an element tree, writing tokens and text back (each helper and '
            '_lines_to_tei against a functional contract over a model of lxml elements)',
            'the composition over a whole document (parse, copy, root property) and _updated_tei_with_lines'),
    'C02': ('proof', 'required path of a tag, common path, path switch of the tree writer, element lookup and creation, '
            '_lines_to_tei', 'documents written and read back as a whole'),
    'C03': ('proof', 'all tag prefix functions, their begin / inside forms and the value mapping, and the laws between '
            'them as lemmas', 'nothing of the statement; run as well on enumerated tags'),
    'C04': ('proof', 'attribute names and every getter and setter of the TEI document, with the frame (only the token, or '
            'the preserved tags of its line)', 'SimpleToken documents'),
    'C05': ('proof', 'the preservation policy functions, _map_token_tags, _apply_preserved_fields, and '
            'annotate_structured_document(_inplace) as the sequence of calls they make', 'the behaviour of the annotators '
            'between'),
    'C06': ('proof', 'the routing of annotate_structured_document, the checks and the names of the two output files',
            'the fuzzy score is an unknown function'),
    'C07': ('proof', 'get_extended_line_token_tags and the functions it uses', 'nothing of the statement'),
    'C08': ('proof', 'the et al, suffix and prefix rules, grouping and their application',
            'the regular expressions are unknown functions in the proof'),
    'C09': ('proof', 'joining and every lookup of positions', 'nothing of the statement'),
    'C10': ('proof', 'splitting, ranges, counts and ratios of a fuzzy match result',
            'the matcher of the dependency that makes the blocks'),
    'C11': ('proof', 'all functions of utils.fuzzy that compute offsets, chunks and ranges',
            'difflib and the matcher of the dependency are unknown functions'),
    'C12': ('proof', 'clusters, their merge and the selection', 'nothing of the statement'),
    'C13': ('proof', 'the functions that move, split and insert text of references over a model of lxml elements, with '
            'text preservation as lemmas', 'xpath selection, the order of fixes over a whole document and the meta data'),
    'C14': ('proof', 'the handlers of the repairing parser and the balance of its tag stack',
            'html.parser, recognition of valid input, bytes and encoding'),
    'C15': ('proof', 'selection of pairs, names by position, pairing of the copies, run',
            'content of the copies, the pattern language (str.format), threads (modelled as sequential)'),
    'C16': ('other', 'the list of files to process, resume, names of output files, routing to the pipeline',
            'failures, temporary files and interleavings of workers: enumerated small runs of the real pipeline'),
    'C17': ('proof', 'all functions of the segmentation annotator including annotate',
            'Counter order and regular expressions are unknown functions'),
    'C18': ('proof', 'all functions of the line number annotator', 'the command line option that configures it'),
    'C19': ('proof', 'parsing of the options and filtering of the mapping', 'the argparse wiring'),
    'C20': ('proof', 'grouping into entities and pending sequences', 'nothing of the statement'),
    'C21': ('proof', 'the simple matching annotator, with the fuzzy search as an unknown function',
            'target values that are lists, and whole documents'),
    'C22': ('proof', 'the post-processing annotators and remove_all_untagged', 'chains of annotators on documents'),
    'C23': ('proof', 'the text of a target element, exclusion, blank handling, prefix selection of the mapping',
            'xpath evaluation and the assembly in xml_root_to_target_annotations'),
}

out = {}
t = table()
for p, (level, proved, bounded) in L.items():
    fns = t.get(p, [])
    n = len([f for f in fns if not f.startswith('lemma ')])
    lem = len(fns) - n
    out[p] = {
        'level': level,
        'technique': 'deductive verification of contracts on the functions of /repo (engine/, z3), '
                     'with bounded run-time checks of the same contracts for the rest',
        'note': 'Proved for all inputs, function by function on the current source: %d functions%s: %s. Bounded only '
                '(generated inputs, never counted as proved): %s. Partial correctness; modelling assumptions are in '
                'DESIGN.md and the evidence.' % (
                    n, ' and %d lemmas' % lem if lem else '', proved, bounded),
        'assumptions': [
            'partial correctness: termination is not proved',
            'the engine (generator of obligations, models of Python builtins and of lxml) is trusted; it is compared with '
            'CPython by the differential runs of every contract',
            'integers are mathematical, floats are reals, strings are sequences of code points',
            'containers stored in fields are not shared between objects',
        ],
    }
json.dump(out, open(os.path.join(H, 'levels.json'), 'w'), indent=1)
