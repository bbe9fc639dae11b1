import json
P='sciencebeam_trainer_grobid_tools/'
TEI=P+'structured_document/grobid_training_tei.py'
CORE=P+'core/structured_document/__init__.py'
MU=P+'annotation/matching_utils.py'
SM=P+'annotation/simple_matching_annotator.py'
FM=P+'core/annotation/fuzzy_match.py'
FZ=P+'utils/fuzzy.py'
REF=P+'annotation/reference_annotator.py'
AN=P+'annotation/annotator.py'
CH=P+'annotation/checks.py'
SEG=P+'annotation/segmentation_annotator.py'
LN=P+'annotation/line_number_annotator.py'
AU=P+'auto_annotate_utils.py'
DL=P+'download_source_files.py'
JF=P+'fix_jats_xml.py'
STR=P+'utils/string.py'
XML=P+'utils/xml.py'
props=[]
def p(id,title,st,over,qt,why,files,mech,observe=None):
    assert len(title)<=80,(id,len(title))
    a={'files':files,'mechanism':[{'name':n,'where':w} for n,w in mech]}
    if observe:a['observe_at']=observe
    a['hook_needed']=None
    props.append({'id':id,'title':title,'statement':st,'quantifier':{'over':over,'text':qt},'why_tests_cant':why,'anchors':a})

p('C01','Annotating a training document never changes its text',
 'Loading a TEI training document, giving its words any tags and sub tags and writing it back yields a document with exactly the same text content, character for character, and leaves everything outside the annotated container as it was. Every word stays on its line and in its order: the words between two line breaks of the input are the words between the corresponding two line breaks of the output (only a line break with nothing after it, and the white space around line breaks, may move or disappear).',
 ['inputs','histories'],'all container contents built from elements with at most one attribute (no comments or processing instructions), all tag assignments, all tag-to-path mappings',
 'tests load and save a few dozen hand-written snippets; loss, duplication or reordering of text shows only for particular nestings of elements, tails, white space and tags',
 [TEI],[('tokenising without loss','_tokenize_text, _iter_split_lower_to_upper_case'),('line buffer and element walk','TokenWriter, LineBuffer, _iter_extract_lines_from_element'),('writing tokens back','_lines_to_tei, XmlTreeWriter, _append_text, _updated_tei_with_lines')],['root property of the document','saved TEI file'])
p('C02','Each word is written inside the element path its tag stands for',
 'In a written document every word lies directly in the element path mapped to its tag (its sub tag if that lies within the path of the main tag, otherwise its main tag, falling back to the preserved tag and then to the default path), with exactly the element names and attribute the mapping gives. A word with a begin-prefixed tag opens a new element for that tag, and a word with an inside-prefixed tag stays in the element of the word before it when both require the same path.',
 ['inputs','configurations'],'all token tag sequences (with and without begin/inside prefix, main and sub level, preserved or assigned) and all tag-to-path mappings with unnamespaced or namespaced paths',
 'tests cover single tags and a handful of pairs of adjacent tags; the path switch depends on the whole history of previously open elements and pending white space',
 [TEI],[('required path of a tag','_get_tag_required_path, _split_path'),('common path and path switch','_get_common_path, _get_element_at_path, XmlTreeWriter'),('prefix handling','_lines_to_tei')],['root property of the document'])
p('C03','Tag prefix operations change only the prefix, tag mapping only the value',
 'Splitting a tag into prefix and value and adding the prefix back yields the original tag (a bare prefix is no tag), and only the begin and inside prefixes are ever split off. Converting a tag to its begin or inside form changes nothing but the prefix, leaves tags without prefix and missing tags as they are, and expanding a tag to n tokens yields exactly n tags with one begin tag followed by inside tags; mapping tag values replaces the value and keeps the prefix.',
 ['inputs'],'all tag strings including empty, missing, prefix-only and repeated-prefix ones, all lengths, all tag maps',
 'tests try a few tag names; the algebra must hold for every string, e.g. values which themselves start with a prefix',
 [CORE,SM,REF],[('split / strip / add','split_tag_prefix, strip_tag_prefix, add_tag_prefix'),('begin / inside conversion','to_begin_tag, to_inside_tag, to_begin_inside_tags, get_merged_begin_inside_tags_of_same_tag_value'),('value mapping','_map_tag, _map_tags')])
p('C04','Setting a tag affects only that token, scope, level and stale preserved tags',
 'After setting a tag on a token for a scope and level, reading that scope and level returns it (nothing if it was set to none) and tags of other tokens, scopes and levels are unchanged. When a word gets a tag whose value differs from the tag or preserved tag it had, the preserved tags with the same value as its own preserved tag are dropped for all tokens of its line (for a main tag also at sub level), and no other preserved tag is touched; white space tokens and same-valued tags never drop preserved tags.',
 ['inputs','histories'],'all lines, tokens, tags, scopes, levels and all sequences of set operations',
 'tests set one or two tags on short lines; the frame condition (nothing else changes) quantifies over all other tokens, scopes and levels and all histories',
 [TEI,CORE],[('attribute names by scope and level','get_scoped_attrib_name'),('tag store','set_tag_only, set_tag, _clear_same_preserved_tag_on_same_line, _set_preserved_tag'),('plain documents','SimpleToken.set_tag, get_tag')])
p('C05','Existing tags survive annotation exactly as the preservation options say',
 'Without preserved tags and without a list of fields to always preserve no existing tag survives; with such a list exactly the tags of the listed fields survive; otherwise all existing tags survive except those of the fields being annotated. Existing sub tags survive only if sub tags are preserved, and then all but those of the fields excluded from it; a surviving tag keeps its begin or inside form, and this decision is made for every token of the document.',
 ['inputs','configurations'],'all documents with existing tags and sub tags and all combinations of the preservation options and field sets',
 'tests try a few option combinations on one-token documents; the policy is a function of five options, the field sets and each token tag',
 [AN,TEI],[('policy','annotate_structured_document_inplace, _preserve_tag_fn, _no_preserve_tag_fn, _map_token_tags'),('always preserved fields','_apply_preserved_fields'),('preserving on load','_preserve_current_tags, _reset_current_tags')])
p('C06','Documents reach the training output only if they pass the quality checks',
 'An annotated document is saved exactly once to the output path if it passes the checks, and if it does not only to the failed path when one is given, otherwise nowhere. It passes exactly if every required field has a target value and, for every required or to-be-matched field with a target value, the tagged entities of that field joined by a space reach the similarity threshold to that value (no field to check always passes); entities are maximal runs of words with the same tag value, a begin prefix starting a new one.',
 ['inputs','configurations'],'all tagged documents, target values, field sets and thresholds',
 'tests use one or two fields and values far from the threshold',
 [AN,CH],[('routing','annotate_structured_document'),('checks','is_structured_document_passing_checks, get_required_target_value_by_name'),('entities','iter_structured_document_entities, get_token_text')],['saved files'])
p('C07','Line extension fills gaps but never changes the value of an existing tag',
 'Extending and merging the tags of a line returns one tag per token, and every tagged token keeps its tag value. An untagged run of tokens is filled only as a whole and only with the value of an adjacent tagged run: with inside tags of the value on both sides if those are equal and merging is enabled for it, or, at the start or end of the line, with the value of the neighbouring run if extending is enabled for it and that run is longer; begin prefixes are demoted to inside only where a run is merged with what precedes it.',
 ['inputs','configurations'],'all tag sequences of any length and all merge and extend settings per tag',
 'tests list about twenty short tag sequences',
 [SM],[('extension','get_extended_line_token_tags, get_merged_begin_inside_tags_of_same_tag_value, to_begin_inside_tags, to_inside_tag')])
p('C08','Reference sub tag rules change only the sub tags they are meant to change',
 'The rules for reference sub tags return one tag per token: an "et al" run takes over the tag of the last preceding run of a mergeable field unless another tagged run lies between, a leading dot after an enabled field is added to that field, and the matching end of the untagged text before an enabled field is added in front of it, moving its begin prefix. All other tags are returned unchanged, and in a document exactly the words of each reference entity are affected, never words of another reference and never the main tags.',
 ['inputs','configurations'],'all token tag, text and white space sequences, all tag sets and prefix patterns, all documents',
 'tests cover about a dozen token sequences; the rules interact across runs, prefixes and white space',
 [REF],[('et al','get_etal_mapped_tags'),('suffix','get_suffix_extended_token_tags'),('prefix','get_prefix_extended_token_tags'),('per entity application','ReferencePostProcessingAnnotator.annotate, _iter_group_tokens_by_tag_entity')])
p('C09','Positions in matched text map back to exactly the tokens at those positions',
 'Joining items to a text yields, for every item, an index range at which the text is exactly that item, in item order and without overlap, with the given separator, padding or white space in between. For any range of that text the items returned are exactly those overlapping it, and for texts built from several token sequences exactly the tokens overlapping it are returned, in order.',
 ['inputs'],'all item lists, separators, padding and white space lists, all index ranges, all lists of token sequences',
 'tests use two to four short items and a few ranges; an off-by-one appears only for particular paddings, empty items or range ends',
 [MU],[('joining','join_with_index_ranges'),('lookup','JoinedText.iter_item_indices_and_index_range_between, iter_items_and_index_range_between'),('tokens','SequenceWrapper.tokens_between, SequencesText.iter_tokens_between, iter_sequences_between')])
p('C10','Splitting and measuring a fuzzy match never loses or moves matched characters',
 'Splitting a match of two texts at any index of either text yields two matches whose blocks, put back, cover exactly the original matched pairs of positions, each on its side of the split and in the coordinates of its part. The complement of ranges within bounds, the index range of a match, the match count, and the text without junk are exactly what their definition over single positions gives, and every ratio reported lies between 0 and 1.',
 ['inputs'],'all texts, all increasing lists of non-overlapping matching blocks, all split indices, all ranges and junk predicates',
 'tests split a handful of matches with one block',
 [FM],[('split','FuzzyMatchResult.a_split_at, b_split_at'),('geometry','a_index_range, b_index_range, match_count, a_matching_blocks'),('complement and junk','invert_index_ranges, count_non_matching_junk, remove_junk')])
p('C11','Fuzzy search reports ranges of the text searched, in its own coordinates',
 'Every range a fuzzy search reports lies within the searched text and not before the given start position, its blocks point at positions of text and pattern that hold equal characters apart from white space, and a pattern that occurs literally, as whole words, in a short text is found. Searching for all occurrences always terminates and reports ranges with strictly increasing ends; views that leave out junk characters and word splitting keep, for every character or word, its position in the original text.',
 ['inputs'],'all texts and patterns that are not blank, thresholds, start positions, chunk counts, separators and junk predicates',
 'tests search a few dozen pairs of short strings, almost always without start position or chunks',
 [FZ],[('search','fuzzy_search_chunks, iter_fuzzy_search_all, get_str_left_strided_matching_blocks_chunks'),('coordinates','get_offset_matching_blocks, StringView, split_with_offset, WordSequenceMatcher')])
p('C12','Selecting among match ranges keeps every range and merges to their hull',
 'Selecting the main cluster of a list of index ranges partitions it: every range is returned exactly once, either as selected or as unselected, both in ascending order, the selected ones forming one cluster of neighbouring ranges at least as long as any other cluster. Merging ranges yields the smallest start and the largest end.',
 ['inputs'],'all non-empty lists of index ranges, in any order, with overlaps and duplicates',
 'tests list half a dozen inputs of two or three ranges',
 [SM],[('selection','select_index_ranges, merge_related_clusters, IndexRangeCluster'),('hull','merge_index_ranges')])
p('C13','Fixing a JATS document never changes the text of its references',
 'Correcting the references of a JATS document only adds, moves, retypes or removes annotation elements: the text content of every reference is the same before and after, character for character, whatever identifiers, links, quotes or nested elements it has, and nothing outside the references changes apart from the added meta data. It never fails on a well-formed reference, and the number of changed references it records is the number of references whose XML differs.',
 ['inputs'],'all reference elements: any nesting, any text and tails, any identifier types and link targets',
 'tests fix about a hundred hand-written references with one feature each',
 [JF],[('re-annotation','change_annotation_to_matching_text, add_annotation_to_element_if_matching, replace_element_with_text, add_next_sibling_element, add_text_to_previous, add_text_to_tail_prefix'),('order of fixes','fix_reference, fix_jats_xml_node'),('meta data','get_fix_xml_meta_data_dict, add_jats_meta_data')],['output XML file'])
p('C14','Repairing malformed XML keeps valid input as it is and balances all tags',
 'Input that is well-formed XML is returned unchanged. For any other input made of start tags, end tags, attributes and text, the output has every start tag closed exactly once in proper nesting, keeps all start tags with their attributes and all text in order, and when everything is inside one outermost element and every end tag belongs to an open element the result is well-formed XML with the same text.',
 ['inputs'],'all strings of tags, attributes and text: missing, superfluous and wrongly nested end tags',
 'tests repair three snippets',
 [XML],[('tag stack','FixingHtmlParser.handle_starttag, handle_endtag, close'),('as is','get_fixed_xml_str, get_fixed_xml_bytes')])
p('C15','Downloaded documents and target files stay paired under their own names',
 'Only pairs of which both files exist are downloaded, and each is copied with unchanged content (gzip compression is added or removed as the names ask for) to the output name derived from the pattern for its own position in the remaining list, so the i-th document and the i-th target always belong together. No existing pair is dropped or duplicated, the order is kept, and the names given by the pattern use the directory, file name, name and extension of the right source file.',
 ['inputs','configurations'],'all file lists, existence patterns, base paths, output patterns and thread counts',
 'tests use one pair of files',
 [DL],[('selection','FileList.select, filter_file_pair_exists'),('names','get_filename_pattern_props, get_relative_output_filename, get_output_file_list'),('copy','copy_files, copy_file, run')],['output directories'])
p('C16','Each source file is processed once and alone, and resume skips only done files',
 'A run processes exactly the source files found (with resume: exactly those without an output file), each once, writing to the output named after it whatever the other files contain and whatever order or worker they run in. A failure of one file fails the run unless errors are skipped, in which case exactly the other files are still written; temporary files of a source file stay available until that file is done and are removed afterwards.',
 ['inputs','fault_sequences','configurations'],'all sets of source files, existing outputs, failing files, worker counts and interleaved starts',
 'tests run the pipeline on one file at a time with mocks',
 [AU],[('resume','get_file_list_without_output_file, get_remaining_source_file_list'),('per file state','auto_annotate, _auto_annotate'),('workers','run_local_pipeline, run')],['output directory'])
p('C17','Segmentation labels whole lines by majority tag and the stated neighbour rules',
 'Every line is labelled as a whole with the segment its most frequent tag maps to, and unlabelled lines become body text unless tags are preserved, in which case preserved page numbers are kept. A line changes this label only by the stated rules: front blocks starting after the configured line lose it, untagged number-only lines that fit between page numbers become page numbers, repeated untagged lines starting early enough become page headers, and untagged lines between two lines of the same mergeable segment (or after the last annex line) join it.',
 ['inputs','configurations'],'all documents (line texts, token tags, preserved tags), all segmentation mappings and thresholds',
 'tests use two to six lines per rule and never combine the rules',
 [SEG],[('labelling','SegmentationAnnotator.annotate'),('rules','clear_front_tags_for_front_blocks_starting_after_threshold, apply_preserved_page_numbers, find_missing_page_numbers, find_and_tag_page_headers, merge_lines')])
p('C18','Only first words of lines in a number sequence are marked as line numbers',
 'The line number annotator tags only first words of lines that are positive integers and belong to a run which increases both in value and in position with no step larger than the allowed gap and has at least the required length, and it tags all words of such runs or, if their share of the lines is below the required ratio, none. The command line options for minimum count, gap and ratio are the values used.',
 ['inputs','configurations'],'all documents and all values of the three options',
 'tests use one document with consecutive numbers and a few variations',
 [LN,AU],[('candidates','get_line_number_candidates, is_line_number'),('ratio and count','iter_find_line_number_tokens_in_lines'),('options','AbstractAnnotatePipelineFactory')])
p('C19','Field options select exactly the named fields and sub fields of the mapping',
 'A comma separated option yields its trimmed items in order; one starting with plus or minus yields the default list with exactly the listed items added or removed, and never modifies the default. Filtering a mapping keeps exactly the entries of the selected fields and of the selected sub fields (all if none are selected) with their values, without modifying the mapping, and overrides replace or add exactly the given keys in every section.',
 ['inputs','configurations'],'all option strings, defaults, mappings, field sets and overrides',
 'tests try a few option strings and two-entry mappings; repeated use of the same default is not tested',
 [STR,AU],[('list parsing','comma_separated_str_to_list, plus_minus_comma_separated_str_to_list, parse_dict'),('mapping filter','get_filtered_xml_mapping_and_fields, get_xml_mapping_with_filtered_sub_fields, get_xml_mapping_with_overrides')])
p('C20','Grouping tokens into entities or pending sequences partitions them in order',
 'Grouping words into entities yields consecutive groups which, put together, are exactly the given words in order; a group ends exactly where the tag value changes or a begin prefix occurs. The pending sequences offered for matching are, line by line and in document order, the words that are still untagged, split where words were tagged since the sequences were created: every untagged word is offered exactly once and no tagged word ever.',
 ['inputs'],'all documents and tag assignments',
 'tests group two or three tokens',
 [REF,MU,CH],[('entities','_iter_group_tokens_by_tag_entity, iter_structured_document_entities'),('pending','PendingSequences, SequenceWrapper.untagged_sub_sequences, get_untagged_line_tokens')])
p('C21','Matching only tags untagged words, and only with the fields it was asked for',
 'Automatic matching never changes the value of a tag a word already has and never alters words, and every tag value it adds is the name of a target annotation (sub tags: of a sub annotation of a matched one). Each range matched gets a begin tag on its first untagged word and inside tags on the others, sub tags are only put on words without sub tags, and a target value that occurs literally as whole words of one untagged line is found.',
 ['inputs','configurations'],'all documents, existing tags and target annotations',
 'tests match one or two values in documents of a few words',
 [SM],[('matching','SimpleMatchingAnnotator.process_target_annotations, update_annotation_for_index_range, process_sub_annotations'),('extension','extend_annotations_to_whole_line')])
p('C22','Post-processing steps change exactly the words they are meant to change',
 'Removing untagged words keeps exactly the tagged words (and the white space following them) in their lines and order; expanding to previous or following untagged words tags exactly the untagged words directly before or after a word of an enabled field; group merging tags exactly the untagged words following a tag with a group; replacing tags changes exactly the tags listed, keeping prefixes; annotating sub tags only leaves all main tags as they were. No step changes the text or any other tag.',
 ['inputs','configurations'],'all documents, tag assignments and configurations',
 'tests use documents of two to four words',
 [P+'annotation/expand_to_untagged_lines_annotator.py',P+'annotation/merge_group_tags_annotator.py',P+'annotation/replace_tags_annotator.py',P+'annotation/sub_tag_annotator.py',P+'annotation/remove_untagged_annotator.py',TEI],
 [('annotators','ExpandToPreviousUntaggedLinesPostProcessingAnnotator, ExpandToFollowingUntaggedLinesPostProcessingAnnotator, MergeGroupTagsPostProcessingAnnotator, ReplaceTagsPostProcessingAnnotator, SubTagOnlyAnnotator, RemoveUntaggedPostProcessingAnnotator'),('removal','remove_all_untagged')])
p('C23','Target values are extracted completely, cleanly and in document order',
 'Each XML element matched by a field yields its text without excluded children as one target value, words of adjacent elements never run together, and the values are ordered by descending field priority and then by document position. Sub annotations come from the sub element paths of the same matched element only.',
 ['inputs','configurations'],'all XML documents and mappings with paths, ignored children, priorities and sub fields',
 'tests extract from one or two elements',
 [P+'annotation/target_annotation.py',P+'core/annotation/target_annotation.py',XML],[('extraction','xml_root_to_target_annotations, get_raw_text_content, iter_text_content_and_exclude, extract_sub_annotations')])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in props))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in props: jsonschema.validate(x,s)
import re
for x in props: print(x['id'],len(re.findall(r'[.](?: |$)',x['statement'])))
