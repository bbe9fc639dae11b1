"""C16: the files that are processed"""
import os
from sciencebeam_utils.tools.check_file_list import map_file_list_to_file_exists
from contracts.lib import contract
from contracts.c19 import without_output_file_spec
from sciencebeam_trainer_grobid_tools.auto_annotate_utils import find_matching_filenames_with_limit, regex_change_name
from sciencebeam_trainer_grobid_tools.annotation.annotator import annotate_structured_document
from sciencebeam_trainer_grobid_tools.fix_jats_xml import load_file_list, relative_path, fix_jats_xml_file


CLASSES = {
    'Factory': {'path': 'auto_annotate_utils:AbstractAnnotatePipelineFactory', 'noalloc': True,
                'fields': {'source_path': 'opt[str]', 'source_base_path': 'str', 'tei_filename_pattern': 'str',
                           'limit': 'opt[int]', 'resume': 'bool', 'output_path': 'str',
                           'failed_output_path': 'opt[str]', 'xml_path': 'str', 'xml_filename_regex': 'str',
                           'skip_errors': 'bool', 'preserve_tags': 'bool', 'output_fields': 'set[str]',
                           'always_preserve_fields': 'opt[list[str]]', 'container_node_path': 'str',
                           'tag_to_tei_path_mapping': 'map[str,str]', 'preserve_sub_tags': 'bool',
                           'no_preserve_sub_fields': 'opt[list[str]]', 'namespaces': 'map[str,str]'}},
    'AnyAnnotator': {'noalloc': True, 'fields': {}},
    'FixProcessor': {'path': 'fix_jats_xml:FixJatsProcessor', 'noalloc': True,
                     'fields': {'num_workers': 'int', 'multi_processing': 'bool', 'source_path': 'opt[str]',
                                'source_file_list_path': 'opt[str]', 'source_file_list_column': 'str',
                                'source_base_path': 'str', 'output_path': 'str', 'source_filename_pattern': 'str',
                                'limit': 'opt[int]', 'log_file_enabled': 'bool'}},
    'RunArgs': {'noalloc': True, 'fields': {'cloud': 'bool', 'num_workers': 'int'}},
}
EXTERNS = {
    'sciencebeam_utils.beam_utils.files.find_matching_filenames_with_limit': {
        'args': ['str', 'opt[int]'], 'names': ['file_pattern', 'limit'], 'ret': 'list[str]', 'stub': True},
    'utils.regex:regex_change_name': {'args': ['str', 'str'], 'names': ['name', 'regex'], 'ret': 'str'},
    'sciencebeam_utils.utils.file_path.relative_path': {'args': ['str', 'str'], 'ret': 'str'},
    'fix_jats_xml:fix_jats_xml_file': {
        'args': ['str', 'str', 'bool'], 'names': ['input_path', 'output_path', 'log_file_enabled'], 'ret': 'none',
        'log': True},
    'Factory.get_final_source_url': {
        'args': ['Factory', 'str'], 'ret': 'str', 'may_raise': ['Exception'], 'within': ['annotate_file_spec']},
    'Factory.get_annotator': {
        'args': ['Factory', 'str'], 'ret': 'AnyAnnotator', 'may_raise': ['Exception'],
        'within': ['annotate_file_spec']},
    'annotation.annotator:annotate_structured_document': {
        'args': ['str', 'str', 'AnyAnnotator', 'bool', 'set[str]', 'opt[list[str]]', 'str', 'map[str,str]', 'bool',
                 'opt[list[str]]', 'any', 'opt[str]', 'map[str,str]'],
        'names': ['source', 'target', 'annotator', 'preserve_tags', 'fields', 'always_preserve_fields',
                  'container_node_path', 'tag_to_tei_path_mapping', 'preserve_sub_tags', 'no_preserve_sub_fields',
                  'is_structured_document_passing_checks', 'failed_target_structured_document_path', 'namespaces'],
        'ret': 'none', 'log': 'annotate_document', 'may_raise': ['Exception'], 'within': ['annotate_file_spec']},
    'auto_annotate_utils:get_target_annotations_from_annotator': {
        'args': ['AnyAnnotator'], 'ret': 'list[str]', 'within': ['annotate_file_spec']},
    'Factory.run_local_pipeline': {
        'args': ['Factory', 'RunArgs', 'list[str]'], 'names': ['self', 'args', 'tei_xml_file_list'], 'ret': 'none',
        'log': 'run_local_pipeline'},
    'Factory.run_beam_pipeline': {
        'args': ['Factory', 'RunArgs', 'list[str]', 'bool'],
        'names': ['self', 'args', 'tei_xml_file_list', 'save_main_session'], 'ret': 'none', 'log': 'run_beam_pipeline'},
    'FixProcessor.run_local_pipeline': {
        'args': ['FixProcessor', 'list[str]'], 'names': ['self', 'xml_file_list'], 'ret': 'none',
        'log': 'fix_local_pipeline'},
}


@contract('auto_annotate_utils', 'AbstractAnnotatePipelineFactory.get_tei_xml_output_file_for_source_file', 'C16 C06',
          self='Factory', source_url='str')
def output_file_spec(self, source_url):
    """named after the source file"""
    return os.path.join(self.output_path, os.path.basename(source_url))


@contract('auto_annotate_utils', 'AbstractAnnotatePipelineFactory.get_tei_xml_failed_output_file_for_source_file',
          'C16 C06', self='Factory', source_url='str')
def failed_output_file_spec(self, source_url):
    if self.failed_output_path:
        return os.path.join(self.failed_output_path, os.path.basename(source_url))
    return None


@contract('auto_annotate_utils', 'AbstractAnnotatePipelineFactory.get_target_xml_for_source_file', 'C16',
          self='Factory', source_url='str')
def target_file_spec(self, source_url):
    return os.path.join(self.xml_path, regex_change_name(os.path.basename(source_url), self.xml_filename_regex))


@contract('auto_annotate_utils', 'AbstractAnnotatePipelineFactory.get_source_file_list', 'C16', self='Factory')
def source_files_spec(self):
    """the given file, or those found"""
    if self.source_path:
        return [self.source_path]
    return list(find_matching_filenames_with_limit(
        os.path.join(self.source_base_path, self.tei_filename_pattern), limit=self.limit))


@contract('auto_annotate_utils', 'AbstractAnnotatePipelineFactory.get_remaining_source_file_list', 'C16',
          self='Factory')
def remaining_files_spec(self):
    """with resume those without output file"""
    files = source_files_spec(self)
    if self.resume:
        exist = map_file_list_to_file_exists([output_file_spec(self, url) for url in files])
        return [url for url, found in zip(files, exist) if not found]
    return files


@contract('auto_annotate_utils', 'AbstractAnnotatePipelineFactory.run', 'C16', self='Factory', args='RunArgs',
          save_main_session='bool')
def run_spec(self, args, save_main_session):
    """all remaining files go to the one pipeline selected"""
    files = remaining_files_spec(self)
    if files:
        if not args.cloud and args.num_workers >= 1:
            self.run_local_pipeline(args, files)
        else:
            self.run_beam_pipeline(args, files, save_main_session)


@contract('fix_jats_xml', 'FixJatsProcessor.get_output_file_for_source_file', 'C16', self='FixProcessor',
          source_url='str')
def fix_output_file_spec(self, source_url):
    return os.path.join(self.output_path, relative_path(self.source_base_path, source_url))


@contract('fix_jats_xml', 'FixJatsProcessor.get_source_file_list', 'C16', self='FixProcessor')
def fix_source_files_spec(self):
    if self.source_file_list_path:
        return load_file_list(self.source_file_list_path, self.source_file_list_column, self.limit)
    if self.source_path:
        return [self.source_path]
    return list(find_matching_filenames_with_limit(
        os.path.join(self.source_base_path, self.source_filename_pattern), limit=self.limit))


@contract('fix_jats_xml', 'FixJatsProcessor.process_source_file', 'C16', self='FixProcessor', source_file='str')
def fix_file_spec(self, source_file):
    """the file itself is never overwritten"""
    output = fix_output_file_spec(self, source_file)
    if output == source_file:
        raise RuntimeError()
    fix_jats_xml_file(source_file, output, self.log_file_enabled)


@contract('fix_jats_xml', 'FixJatsProcessor.run', 'C16', self='FixProcessor')
def fix_run_spec(self):
    files = fix_source_files_spec(self)
    if files:
        self.run_local_pipeline(files)


@contract('auto_annotate_utils', 'AbstractAnnotatePipelineFactory._auto_annotate', 'C16',
          self='Factory', source_url='str', native=False)
def annotate_file_spec(self, source_url):
    """the file is annotated once, to the output named after it (failed checks: to the other one), with the options of
    the run; any failure on the way is the failure of this file, unless errors are skipped"""
    output = os.path.join(self.output_path, os.path.basename(source_url))
    try:
        final_source_url = self.get_final_source_url(source_url)
        annotator = self.get_annotator(final_source_url)
        annotate_structured_document(
            final_source_url, output, annotator, self.preserve_tags, self.output_fields, self.always_preserve_fields,
            self.container_node_path, self.tag_to_tei_path_mapping, self.preserve_sub_tags,
            self.no_preserve_sub_fields, None, failed_output_file_spec(self, source_url), self.namespaces)
    except Exception:
        if not self.skip_errors:
            raise RuntimeError()
