"""C07: extending the tags of a line"""
from itertools import groupby
from contracts.lib import contract, lemma, implies, invariant
from sciencebeam_trainer_grobid_tools.core.structured_document import (
    add_tag_prefix, split_tag_prefix, strip_tag_prefix
)
from sciencebeam_trainer_grobid_tools.annotation.simple_matching_annotator import (
    to_inside_tag, to_begin_inside_tags, get_merged_begin_inside_tags_of_same_tag_value
)


def option(d, key, default):
    if d is None or key is None:
        return default
    return d.get(key, default)


def merged_runs(tags, merge_enabled_map, default_merge):
    """runs of equal values; where merging is enabled for the value, only the first tag of a run is a begin tag"""
    runs = [list(group) for _, group in groupby(tags, key=strip_tag_prefix)]
    return [
        get_merged_begin_inside_tags_of_same_tag_value(run)
        if merge_enabled_map.get(strip_tag_prefix(run[0]), default_merge) else run
        for run in runs
    ]


@contract('annotation.simple_matching_annotator', 'get_extended_line_token_tags', 'C07',
          line_token_tags='list[opt[str]]', extend_to_line_enabled_map='map[str,bool]',
          merge_enabled_map='map[str,bool]', default_extend_to_line_enabled='bool',
          default_merge_enabled='bool', seconds=240,
          opaque=True, returns='list[opt[str]]', may_raise='IndexError')
def extended_line_spec(line_token_tags, extend_to_line_enabled_map, merge_enabled_map,
                       default_extend_to_line_enabled, default_merge_enabled):
    if extend_to_line_enabled_map is None:
        extend_to_line_enabled_map = {}
    if merge_enabled_map is None:
        merge_enabled_map = {}
    runs = merged_runs(line_token_tags, merge_enabled_map, default_merge_enabled)
    result = []
    for i, run in enumerate(runs):
        if run[0]:
            result.extend(run)
            continue
        # an untagged run
        before = runs[i - 1] if i > 0 else None
        after = runs[i + 1] if i + 1 < len(runs) else None
        value_before = split_tag_prefix(before[-1])[1] if before else None
        after_prefix, value_after = split_tag_prefix(after[0]) if after else (None, None)
        if before and after:
            if value_before == value_after and option(merge_enabled_map, value_before, default_merge_enabled):
                result.extend([to_inside_tag(before[-1])] * len(run))
                if after_prefix == 'b-':
                    after[0] = to_inside_tag(after[0])
                continue
        elif before and not option(extend_to_line_enabled_map, value_before, default_extend_to_line_enabled):
            pass
        elif after and not option(extend_to_line_enabled_map, value_after, default_extend_to_line_enabled):
            pass
        elif before and len(before) > len(run):
            result.extend([to_inside_tag(before[-1])] * len(run))
            continue
        elif after and len(after) > len(run):
            result.extend(to_begin_inside_tags(after[0], len(run)))
            if after_prefix == 'b-':
                after[0] = to_inside_tag(after[0])
            continue
        result.extend(run)
    return result
