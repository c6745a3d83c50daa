# property -> (module, function, level)
CHECKS = {
    'C01': ('nopanic', 'nopanic', 'proof'),
    'C05': ('parser', 'grammar', 'proof'),
    'C14': ('parser', 'content', 'proof'),
    'C18': ('parser', 'spans', 'proof'),
    'C02': ('reading', 'delivery', 'proof'),
    'C10': ('reading', 'printable', 'proof'),
    'C19': ('reading', 'encodings', 'proof'),
    'C04': ('structure', 'recursion', 'proof'),
    'C15': ('structure', 'purity', 'proof'),
    'C16': ('structure', 'unsafety', 'proof'),
    'C06': ('emitting', 'events', 'proof'),
    'C07': ('lifecycle', 'reset', 'proof'),
    'C13': ('scope', 'scope', 'proof'),
    'C21': ('composing', 'loading', 'proof'),
    'C25': ('dumping', 'dumping', 'proof'),
    'C17': ('flushing', 'flushing', 'proof'),
    'C11': ('failing', 'failing', 'proof'),
    'C22': ('settings', 'settings', 'proof'),
    'C08': ('writing', 'writing', 'proof'),
    'C09': ('styles', 'styles', 'proof'),
}
