"""a pipeline factory of the real code over a scratch directory"""
import argparse
import contextlib
import os
import shutil
import tempfile
from common import R, call

AU = 'auto_annotate_utils'


@contextlib.contextmanager
def scratch(prefix):
    d = tempfile.mkdtemp(prefix=prefix)
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


def options(d, failed=False, args=()):
    parser = argparse.ArgumentParser()
    R(AU, 'add_annotation_pipeline_arguments')(parser)
    argv = ['--source-base-path', os.path.join(d, 'src'), '--output-path', os.path.join(d, 'out'),
            '--xml-path', os.path.join(d, 'xml'), '--xml-filename-regex', r'/\.tei\.xml/.xml/']
    if failed:
        argv += ['--failed-output-path', os.path.join(d, 'failed')]
    return parser.parse_args(argv + list(args))


def factory(opt, get_annotator, tag_to_tei_path_mapping=None, pattern='*.tei.xml', cls_attrs=None,
            container='text/front', **kwargs):
    base = R(AU, 'AbstractAnnotatePipelineFactory')

    class Factory(base):
        def get_annotator(self, source_url):
            return get_annotator(source_url)
    for k, v in (cls_attrs or {}).items():
        setattr(Factory, k, v)
    return call(Factory, opt, tei_filename_pattern=pattern, container_node_path=container,
                tag_to_tei_path_mapping=tag_to_tei_path_mapping or {}, **kwargs)


def files(d):
    return sorted(os.path.relpath(os.path.join(p, f), d) for p, _, fs in os.walk(d) for f in fs)
