"""C15: download of pairs of files"""
import os
from contracts.lib import contract
from sciencebeam_trainer_grobid_tools.download_source_files import (
    FileList, get_relative_output_filename, copy_file, load_file_list, to_relative_file_list, to_absolute_file_list,
    map_file_list_to_file_exists, get_output_file_list, filter_file_pair_exists
)


class Workers:
    """multiprocessing.dummy.Pool as far as it is used: map applies the function to every item, in some order;
    as in the sequential order here, because the calls are for different output files"""
    def __init__(self, n):
        self.n = n

    def map(self, fn, items):
        return [fn(item) for item in items]

    def close(self):
        pass

    def join(self):
        pass


def workers(n):
    return Workers(n)


CLASSES = {
    'Files': {'path': 'download_source_files:FileList',
              'fields': {'base_path': 'opt[str]', 'relative_file_list': 'list[str]',
                         'absolute_file_list': 'list[str]'}},
    'DownloadArgs': {'noalloc': True,
                     'fields': {'document_file_list': 'str', 'document_base_path': 'opt[str]',
                                'document_file_column': 'str', 'target_file_list': 'str',
                                'target_base_path': 'opt[str]', 'target_file_column': 'str',
                                'document_output_path': 'str', 'document_output_filename_pattern': 'str',
                                'target_output_path': 'str', 'target_output_filename_pattern': 'str',
                                'limit': 'opt[int]', 'threads': 'int'}},
}
EXTERNS = {
    'sciencebeam_utils.utils.file_list.to_relative_file_list': {'args': ['str', 'list[str]'], 'ret': 'list[str]'},
    'sciencebeam_utils.utils.file_list.to_absolute_file_list': {'args': ['str', 'list[str]'], 'ret': 'list[str]'},
    'sciencebeam_utils.utils.file_list.load_file_list': {
        'args': ['str', 'str', 'opt[int]'], 'names': ['filename', 'column', 'limit'], 'ret': 'list[str]', 'stub': True},
    'multiprocessing.dummy.Pool': {'model': 'contracts.c15:workers', 'args': ['int'], 'ret': 'none'},
    'os.path.join': {'args': ['str', 'str'], 'ret': 'str'},
    'os.path.dirname': {'args': ['str'], 'ret': 'str'},
    'os.path.basename': {'args': ['str'], 'ret': 'str'},
    'os.path.splitext': {'args': ['str'], 'ret': 'tuple[str,str]'},
    'download_source_files:get_relative_output_filename': {
        'args': ['str', 'str', 'int', 'opt[dict[str,list[str]]]'],
        'names': ['relative_source_filename', 'output_filename_pattern', 'index', 'file_lists'], 'ret': 'str'},
    'download_source_files:copy_file': {
        'args': ['str', 'str'], 'names': ['source_filename', 'output_filename'], 'ret': 'none', 'log': True},
}


@contract('download_source_files', 'FileList.__init__', 'C15', self='Files', base_path='opt[str]',
          file_list='list[str]', opaque=True, returns='none', modifies='Files.*')
def files_init_spec(self, base_path, file_list):
    """the paths relative to the base path, and the base path added to those"""
    self.base_path = base_path
    if base_path:
        self.relative_file_list = to_relative_file_list(base_path, file_list)
        self.absolute_file_list = to_absolute_file_list(base_path, self.relative_file_list)
    else:
        self.relative_file_list = file_list
        self.absolute_file_list = file_list


@contract('download_source_files', 'FileList.__len__', 'C15', self='Files')
def files_len_spec(self):
    return len(self.absolute_file_list)


@contract('download_source_files', 'FileList.select', 'C15', self='Files', selection='list[bool]')
def select_spec(self, selection):
    """the selected ones, in order"""
    assert len(selection) == len(self.absolute_file_list)
    return FileList(base_path=self.base_path, file_list=[
        self.absolute_file_list[i] for i in range(len(selection)) if selection[i]])


@contract('download_source_files', 'get_filename_pattern_props', 'C15', relative_source_filename='str')
def props_spec(relative_source_filename):
    filename = os.path.basename(relative_source_filename)
    directory = os.path.dirname(relative_source_filename)
    name, ext = os.path.splitext(filename)
    if ext.lower() == '.gz':
        name, ext = os.path.splitext(name)
    return {'dir': directory + '/' if directory else '', 'filename': filename, 'name': name, 'ext': ext}


@contract('download_source_files', 'get_relative_output_file_list', 'C15', relative_source_file_list='list[str]',
          output_filename_pattern='str', file_lists='opt[dict[str,list[str]]]')
def relative_outputs_spec(relative_source_file_list, output_filename_pattern, file_lists=None):
    """each name is derived for its own position"""
    return [
        get_relative_output_filename(relative_source_file_list[i], output_filename_pattern, i, file_lists)
        for i in range(len(relative_source_file_list))
    ]


@contract('download_source_files', 'get_output_file_list', 'C15', source_file_list='Files', output_path='str',
          output_filename_pattern='str', file_lists='opt[dict[str,list[str]]]',
          opaque=True, returns='Files', reads='Files.*', modifies='Files.*')
def outputs_spec(source_file_list, output_path, output_filename_pattern, file_lists=None):
    return FileList(output_path, [
        os.path.join(output_path, name)
        for name in relative_outputs_spec(source_file_list.relative_file_list, output_filename_pattern, file_lists)
    ])


@contract('download_source_files', 'copy_files', 'C15', source_file_list='list[str]', output_file_list='list[str]')
def copy_files_spec(source_file_list, output_file_list):
    """each to the name at the same position"""
    assert len(source_file_list) == len(output_file_list)
    for i in range(len(source_file_list)):
        copy_file(source_file_list[i], output_file_list[i])


@contract('download_source_files', 'filter_file_pair_exists', 'C15', file_list1='Files', file_list2='Files',
          opaque=True, returns='tuple[Files,Files]', reads='Files.*', modifies='Files.*', may_raise='AssertionError')
def pairs_spec(file_list1, file_list2):
    """both lists keep the positions at which both exist"""
    exists1 = map_file_list_to_file_exists(file_list1.absolute_file_list)
    exists2 = map_file_list_to_file_exists(file_list2.absolute_file_list)
    both = [a and b for a, b in zip(exists1, exists2)]
    return (select_spec(file_list1, both), select_spec(file_list2, both))


def has_threads(args):
    return args.threads >= 1


@contract('download_source_files', 'run', 'C15', args='DownloadArgs', requires='has_threads')
def run_spec(args):
    all_documents = FileList(args.document_base_path,
                             load_file_list(args.document_file_list, args.document_file_column, args.limit))
    all_targets = FileList(args.target_base_path,
                           load_file_list(args.target_file_list, args.target_file_column, args.limit))
    documents, targets = filter_file_pair_exists(all_documents, all_targets)
    if not documents.absolute_file_list:
        raise ValueError('none')
    names = {'document': documents.relative_file_list, 'target': targets.relative_file_list}
    document_outputs = get_output_file_list(
        documents, args.document_output_path, args.document_output_filename_pattern, names)
    target_outputs = get_output_file_list(
        targets, args.target_output_path, args.target_output_filename_pattern, names)
    copy_files_spec(documents.absolute_file_list, document_outputs.absolute_file_list)
    copy_files_spec(targets.absolute_file_list, target_outputs.absolute_file_list)
