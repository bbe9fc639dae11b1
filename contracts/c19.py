"""C19: command line options for fields"""
import re
from sciencebeam_utils.tools.check_file_list import map_file_list_to_file_exists
from contracts.lib import contract, lemma, implies, invariant
from sciencebeam_trainer_grobid_tools.utils.string import comma_separated_str_to_list


@contract('utils.string', 'is_blank', 'C19 C23 C01', text='opt[str]')
def is_blank_spec(text):
    if not text:
        return True
    return text.strip() == ''


@contract('utils.string', 'comma_separated_str_to_list', 'C19', s='str', opaque=True, returns='list[str]')
def comma_separated_spec(s):
    """the trimmed items in order, none for a blank text"""
    if s.strip() == '':
        return []
    return [item.strip() for item in s.strip().split(',')]


@contract('utils.string', 'plus_minus_comma_separated_str_to_list', 'C19', s='str', default_value='list[str]')
def plus_minus_spec(s, default_value):
    """plus and minus items change a copy of the default"""
    items = comma_separated_str_to_list(s)
    if not items or items[0][:1] not in ('+', '-'):
        return items
    result = list(default_value)
    mode = None
    for item in items:
        if not item:
            continue
        value = item
        if item.startswith(('+', '-')):
            mode = item[0]
            value = item[1:]
        if mode == '+':
            result.append(value)
        if mode == '-':
            result.remove(value)
    return result


@contract('utils.string', 'parse_key_value', 'C19', expr='str')
def parse_key_value_spec(expr):
    parts = expr.split('=', 1)
    if len(parts) != 2:
        raise ValueError()
    return parts[0].strip(), parts[1].strip()


@contract('utils.string', 'parse_dict', 'C19', expr='str', delimiter='str')
def parse_dict_spec(expr, delimiter):
    result = {}
    if expr != '':
        for fragment in expr.split(delimiter):
            key, value = parse_key_value_spec(fragment)
            result[key] = value
    return result


@contract('utils.misc', 'get_dict_safe', 'C19', d='opt[map[str,str]]', key='opt[str]', default_value='opt[str]')
def get_dict_safe_spec(d, key, default_value):
    return d[key] if d is not None and key is not None and key in d else default_value


@contract('utils.misc', 'get_safe', 'C19', a='opt[list[str]]', key='int', default_value='opt[str]')
def get_safe_spec(a, key, default_value):
    return a[key] if a is not None and -len(a) <= key < len(a) else default_value


EXTERNS = {
    'core.annotation.target_annotation:parse_xml_mapping': {
        'args': ['str'], 'ret': 'dict[str,dict[str,str]]', 'log': 'parse_xml_mapping'},
    'sciencebeam_utils.tools.check_file_list.map_file_list_to_file_exists': {
        'args': ['list[str]'], 'ret': 'list[bool]', 'same_len': 0, 'stub': 'each'},
    're.sub': {'args': ['str', 'str', 'str'], 'ret': 'str'},
    're.escape': {'args': ['str'], 'ret': 'str'},
}


@contract('auto_annotate_utils', 'get_mapping_key_field_name', 'C19', key='str')
def field_name_spec(key):
    """the part before the first dot"""
    return key.split('.', 1)[0]


@contract('auto_annotate_utils', 'get_sub_field_for_key_or_none', 'C19', key='str')
def sub_field_spec(key):
    prefix = field_name_spec(key) + '.sub.'
    if key.startswith(prefix):
        return key[len(prefix):]
    return None


@contract('auto_annotate_utils', 'is_key_selected_sub_fields_or_no_sub_field', 'C19',
          key='str', sub_fields='set[str]')
def sub_field_selected_spec(key, sub_fields):
    """an entry of a sub field: <field>.sub.<sub field> and its options, <field>.sub.<sub field>.<option>"""
    sub_field = sub_field_spec(key)
    return sub_field is None or sub_field == '' or field_name_spec(sub_field) in sub_fields


@contract('auto_annotate_utils', 'get_xml_mapping_with_filtered_sub_fields', 'C19',
          xml_mapping='dict[str,dict[str,str]]', sub_fields='opt[set[str]]')
def filtered_sub_fields_spec(xml_mapping, sub_fields):
    """per section all entries but those of sub fields that are not selected; all of them if none are selected"""
    if not sub_fields:
        return xml_mapping
    return {
        section: {k: v for k, v in mapping.items() if sub_field_selected_spec(k, sub_fields)}
        for section, mapping in xml_mapping.items()
    }


@contract('auto_annotate_utils', 'get_filtered_xml_mapping_and_fields', 'C19',
          xml_mapping='dict[str,dict[str,str]]', fields='opt[set[str]]', sub_fields='opt[set[str]]')
def filtered_fields_spec(xml_mapping, fields, sub_fields):
    """the entries of the selected fields; without selection all fields of the mapping"""
    if fields:
        selected = {
            section: {k: v for k, v in mapping.items() if field_name_spec(k) in fields}
            for section, mapping in xml_mapping.items()
        }
        return filtered_sub_fields_spec(selected, sub_fields), fields
    found = set()
    for section, mapping in xml_mapping.items():
        for k in mapping.keys():
            if '.' not in k:
                found.add(k)
    return filtered_sub_fields_spec(xml_mapping, sub_fields), found


@contract('auto_annotate_utils', 'get_xml_mapping_with_overrides', 'C19',
          xml_mapping='dict[str,dict[str,str]]', xml_mapping_overrides='opt[dict[str,str]]')
def overrides_spec(xml_mapping, xml_mapping_overrides):
    """every section has the overrides on top of its own entries"""
    if not xml_mapping_overrides:
        return xml_mapping
    return {section: {**mapping, **xml_mapping_overrides} for section, mapping in xml_mapping.items()}


@contract('auto_annotate_utils', 'get_file_list_without_output_file', 'C16',
          file_list='list[str]', get_output_file_for_source_url='fn[str,str]')
def without_output_file_spec(file_list, get_output_file_for_source_url):
    """exactly the files for which no output file exists, in order"""
    exist = map_file_list_to_file_exists([get_output_file_for_source_url(url) for url in file_list])
    return [url for url, found in zip(file_list, exist) if not found]


@contract('auto_annotate_utils', '_resolve_tag_expression_namespace', 'C19',
          tag_expression='str', namespaces='opt[dict[str,str]]')
def resolve_namespace_spec(tag_expression, namespaces):
    if tag_expression and namespaces:
        for name, url in namespaces.items():
            tag_expression = re.sub(r'\b' + re.escape(name) + r':', '{' + url + '}', tag_expression)
    return tag_expression


@contract('auto_annotate_utils', '_resolve_tag_to_tei_mapping_namespace', 'C19',
          tag_to_tei_path_mapping='dict[str,str]', namespaces='opt[dict[str,str]]')
def resolve_mapping_spec(tag_to_tei_path_mapping, namespaces):
    return {k: resolve_namespace_spec(v, namespaces) for k, v in tag_to_tei_path_mapping.items()}
