"""Writes the configurations of MC_Conf: the same states, with the invariants and the questions of each property."""
import os

SPEC = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'spec')
INVS = {'C01': 'Canonical Prefixed SubIds', 'C02': 'RoundTrip Complete', 'C04': 'Injective', 'C05': 'Unseen Shown', 'C06': 'Bounded Positions',
        'C07': 'Addressed Less', 'C09': 'Equality', 'C18': 'Selecting', 'C22': 'Exported Keeps', 'C26': '', 'C31': 'Reproduced'}

# name: leaves, nested further, parameters
UNIVERSES = {'': ('Quick', 'FALSE', 2), '_thorough': ('Thorough', 'FALSE', 2), '_nest': ('Thorough', 'TRUE', 1)}

for p, invs in INVS.items():
    for name, (leaves, nest, n) in UNIVERSES.items():
        if p == 'C18' and not name:
            n = 1
        with open(os.path.join(SPEC, 'MC_Conf_%s%s.cfg' % (p, name)), 'w') as f:
            f.write('SPECIFICATION Spec\nCONSTANTS\n  Prop = "%s"\n  Leaves <- Leaves%s\n  Nest = %s\n  MaxParams = %d\n'
                    'INVARIANTS %s Export\nCHECK_DEADLOCK FALSE\n' % (p, leaves, nest, n, invs))
