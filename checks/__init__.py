REGISTRY = {
    'C01': ('effects', 'c01'),
    'C02': ('effects', 'c02'),
    'C03': ('effects', 'c03'),
    'C04': ('effects', 'c04'),
    'C05': ('effects', 'c05'),
    'C06': ('effects', 'c06'),
    'C07': ('prbs', 'c07'),
    'C08': ('symbols', 'c08'),
    'C09': ('symbols', 'c09'),
    'C10': ('coding', 'c10'),
    'C11': ('coding', 'c11'),
    'C12': ('prbs', 'c12'),
    'C13': ('codes', 'c13'),
    'C14': ('codes', 'c14'),
    'C15': ('decide', 'c15'),
    'C16': ('filters', 'c16'),
    'C17': ('filters', 'c17'),
    'C18': ('shaping', 'c18'),
    'C19': ('delay', 'c19'),
    'C20': ('helpers', 'c20'),
    'C21': ('adapt', 'c21'),
    'C22': ('estimate', 'c22'),
    'C23': ('lock', 'c23'),
    'C24': ('noise', 'c24'),
    'C25': ('measure', 'c25'),
    'C26': ('validate', 'c26'),
    'C27': ('link', 'c27'),
    'C28': ('defaults', 'c28'),
    'C29': ('loop', 'c29'),
    'C30': ('solvers', 'c30'),
    'C31': ('loop', 'c31'),
}
