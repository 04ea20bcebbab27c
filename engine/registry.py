import tree_checks, tables, dom_checks, parser_checks, text_checks, doc_checks, writer_checks, node_checks
CHECKS = {
    'C01': (tree_checks.C01, 'other'),
    'C02': (tree_checks.C02, 'other'),
    'C03': (dom_checks.C03, 'other'),
    'C04': (dom_checks.C04, 'other'),
    'C05': (dom_checks.C05, 'other'),
    'C06': (dom_checks.C06, 'other'),
    'C17': (dom_checks.C17, 'other'),
    'C19': (dom_checks.C19, 'other'),
    'C08': (tables.C08, 'other'),
    'C09': (tables.C09, 'other'),
    'C10': (tables.C10, 'other'),
    'C18': (tree_checks.C18, 'other'),
    'C26': (tables.C26, 'other'),
    'C27': (tables.C27, 'other'),
    'C07': (doc_checks.C07, 'other'),
    'C11': (parser_checks.C11, 'other'),
    'C12': (parser_checks.C12, 'other'),
    'C13': (parser_checks.C13, 'other'),
    'C14': (parser_checks.C14, 'other'),
    'C15': (writer_checks.C15, 'other'),
    'C16': (writer_checks.C16, 'other'),
    'C24': (writer_checks.C24, 'other'),
    'C21': (text_checks.C21, 'other'),
    'C22': (parser_checks.C22, 'other'),
    'C23': (doc_checks.C23, 'other'),
    'C20': (node_checks.C20, 'other'),
}
