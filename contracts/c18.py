"""C18: line numbers"""
from contracts.lib import contract, lemma, implies, invariant
from contracts.c04 import put_tag
from sciencebeam_trainer_grobid_tools.annotation.line_number_annotator import iter_find_line_number_tokens_in_lines

CLASSES = {
    'LineNumberConfig': {'path': 'annotation.line_number_annotator:TextLineNumberAnnotatorConfig',
                         'fields': {'tag': 'str', 'min_line_number': 'int', 'max_line_number_gap': 'int',
                                    'line_number_ratio_threshold': 'real'}},
    'LineNumberAnnotator': {'path': 'annotation.line_number_annotator:TextLineNumberAnnotator',
                            'fields': {'config': 'LineNumberConfig'}},
}
MOD = 'annotation.line_number_annotator'


@contract('annotation.line_number_annotator', 'iter_first_tokens_of_lines', 'C18',
          structured_document='Doc', lines='list[TeiLine]')
def iter_first_tokens_of_lines_spec(structured_document, lines):
    return [line.non_space_tokens[0] for line in lines if line.non_space_tokens]


@contract('annotation.line_number_annotator', 'is_line_number', 'C18', text='str')
def is_line_number_spec(text):
    try:
        return int(text) > 0
    except ValueError:
        return False


def number_of(item):
    return (item[1], item[2])


@contract('annotation.line_number_annotator', 'get_line_number_candidates', 'C18',
          structured_document='Doc', tokens='list[TeiText]', min_line_number='int', max_line_number_gap='int')
def get_line_number_candidates_spec(structured_document, tokens, min_line_number, max_line_number_gap):
    """numbers sorted by value and position; a number extends the sequence if it is at a later position and 1 to
    1 + gap larger than the last one, starts a new sequence if it is larger than that, and is skipped otherwise"""
    numbers = []
    for i, token in enumerate(tokens):
        if is_line_number_spec(token.stripped_text):
            numbers.append((token, int(token.stripped_text), 1 + i))
    if not numbers:
        return []
    numbers = sorted(numbers, key=number_of)
    sequences = [[numbers[0]]]
    for item in numbers[1:]:
        last = sequences[-1][-1]
        if item[2] < last[2] or item[1] == last[1]:
            continue
        if last[1] < item[1] and item[1] <= last[1] + 1 + max_line_number_gap:
            sequences[-1].append(item)
        else:
            sequences.append([item])
    accepted = [seq for seq in sequences if len(seq) >= min_line_number]
    return [token for seq in accepted for token, _, _ in seq]


@contract('annotation.line_number_annotator', 'iter_find_line_number_tokens_in_lines', 'C18',
          structured_document='Doc', lines='list[TeiLine]', min_line_number='int', max_line_number_gap='int',
          line_number_ratio_threshold='real', opaque=True, returns='list[TeiText]',
          reads='TeiText.stripped_text TeiLine.non_space_tokens', may_raise='IndexError ValueError ZeroDivisionError')
def iter_find_line_number_tokens_in_lines_spec(structured_document, lines, min_line_number, max_line_number_gap,
                                               line_number_ratio_threshold):
    first = iter_first_tokens_of_lines_spec(structured_document, lines)
    numbers = get_line_number_candidates_spec(structured_document, first, min_line_number, max_line_number_gap)
    if not numbers or len(numbers) < min_line_number:
        return []
    if len(numbers) / len(first) < line_number_ratio_threshold:
        return []
    return numbers


@contract('annotation.line_number_annotator', 'TextLineNumberAnnotator.annotate', 'C18',
          self='LineNumberAnnotator', structured_document='Doc')
def line_number_annotate_spec(self, structured_document):
    """the line numbers, found with the options of the configuration, get its tag"""
    found = iter_find_line_number_tokens_in_lines(
        structured_document, structured_document._lines, self.config.min_line_number,
        self.config.max_line_number_gap, self.config.line_number_ratio_threshold)
    for token in found:
        put_tag(structured_document, token, self.config.tag, None)
    return structured_document
