CHECKS = {
    'C01': dict(harness='c01_parse', max_restarts=20),
    'C02': dict(harness='c02_offsets'),
    'C03': dict(harness='c03_stream'),
    'C04': dict(harness='c04_build'),
    'C11': dict(harness='c11_encoders'),
    'C13': dict(harness='c13_streams'),
    'C09': dict(harness='c09_address'),
    'C07': dict(harness='c07_text'),
    'C08': dict(harness='c08_param'),
    'C05': dict(harness='c05_regen'),
    'C23': dict(harness='c23_size'),
    'C06': dict(harness='c06_output'),
    'C10': dict(harness='c10_date'),
    'C12': dict(harness='c12_charset'),
    'C14': dict(harness='c14_digest'),
    'C15': dict(harness='c15_url'),
    'C16': dict(harness='c16_helpers'),
    'C17': dict(harness='c17_values'),
    'C18': dict(harness='c18_copies'),
    'C19': dict(harness='c19_containers'),
    'C20': dict(harness='c20_mail'),
    'C21': dict(harness='c21_contents'),
    'C22': dict(harness='c22_sets'),
    'N04': dict(harness='n04_smtp'),
    'N01': dict(harness='n01_imapparser'),
    'N02': dict(harness='n02_imap'),
    'N03': dict(harness='n03_pop3'),
    'N05': dict(harness='n05_lost', level='fault_enumeration'),
    'N06': dict(harness='n06_trace'),
    'N07': dict(harness='n07_tls'),
    'N10': dict(harness='n10_threads', flavor='tsan'),
    'N11': dict(harness='n11_posix'),
    'N12': dict(harness='n12_login'),
    'N13': dict(harness='n13_session'),
    'C24': dict(harness='c24_range'),
    'A01': dict(harness='a01_alt', flavor='alt'),
    'N08': dict(harness='n08_maildir'),
    'N09': dict(harness='n09_faults', level='fault_enumeration'),
}
