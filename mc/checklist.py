"""Which harnesses decide which property."""
CHECKS = {
    'C01': dict(parts=[dict(src='c01', variant='race')]),
    'C02': dict(parts=[dict(src='c02', variant='race')]),
    'C03': dict(parts=[dict(src='c03', variant='race')]),
    'C04': dict(parts=[dict(src='c04', variant='race')]),
    'C08': dict(parts=[dict(src='c08', variant='race')]),
    'C10': dict(parts=[dict(src='c10', variant='plain')]),
    'C11': dict(parts=[dict(src='c11', variant='race')]),
    'C05': dict(parts=[dict(src='c05', variant='plain')]),
    'C06': dict(parts=[dict(src='c06', variant='plain')]),
    'C07': dict(parts=[dict(src='c07', variant='asan')]),
    'C09': dict(parts=[dict(src='c09', variant='race')]),
    'C12': dict(parts=[dict(src='c12', variant='plain')]),
    'C13': dict(parts=[dict(src='c13', variant='plain')]),
    'C14': dict(parts=[dict(src='c14', variant='plain')]),
    'C15': dict(parts=[dict(src='c15', variant='plain'), dict(src='c15r', variant='race')]),
    'C16': dict(parts=[dict(src='c16', variant='plain')]),
    'C17': dict(parts=[dict(src='c17', variant='plain')]),
    'C18': dict(parts=[dict(src='c18', variant='plain')]),
    'C19': dict(modules=['c19']),
    'C20': dict(modules=['c20']),
    'C21': dict(modules=['c21']),
    'C22': dict(parts=[dict(src='c22r', variant='race', extra=('pyslatcore.cpp',))], modules=['c22']),
}
