"""Declared classes: fields are heap locations of their objects; containers in fields are owned by the object."""

CLASSES = {
    'TeiText': {
        'path': 'structured_document.grobid_training_tei:TeiText',
        'subclasses': {'TeiSpace': 'structured_document.grobid_training_tei:TeiSpace'},
        'fields': {'text': 'str', 'stripped_text': 'str', 'attrib': 'map[str,str]', 'line': 'opt[TeiLine]',
                   'whitespace': 'opt[str]'}},
    'TeiLine': {
        'path': 'structured_document.grobid_training_tei:TeiLine',
        'fields': {'tokens': 'list[TeiText]', 'non_space_tokens': 'list[TeiText]'}},
    'Doc': {
        'path': 'structured_document.grobid_training_tei:GrobidTrainingTeiStructuredDocument',
        'fields': {'_lines': 'list[TeiLine]', '_root': 'obj[Root]', '_tag_to_tei_path_mapping': 'dict[str,str]'}},
    'Root': {'fields': {}},
}
