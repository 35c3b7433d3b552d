"""Which proof units and which native driver belong to which property."""
import importlib

# property -> (spec modules, native driver)
MAP = {
    'C01': (['memsim'], 'memsim'),
    'C02': (['memsim'], 'memsim'),
    'C03': (['memsim'], 'memsim'),
    'C04': (['memsim'], 'memsim'),
    'C05': (['memsim'], 'memsim'),
    'C06': (['memsim'], 'memsim'),
    'C07': (['memmap', 'memsim'], 'memsim'),
    'C08': (['elf'], 'loaders'),
    'C09': (['memsim'], 'memsim'),
    'C10': (['dump'], 'loaders'),
    'C11': (['dump'], 'loaders'),
    'C23': (['memsim'], 'memsim'),
    'C12': (['gdblog'], 'loaders'),
    'C13': (['dump', 'gdblog', 'memmap', 'memsim', 'elf', 'cmdline'], 'loaders'),
    'C18': (['cmdline'], 'loaders'),
    'C14': (['platform'], 'platform'),
    'C15': (['platform'], 'platform'),
    'C16': (['platform'], 'platform'),
    'C17': (['trycatch'], 'trycatch'),
    'C22': (['platform'], 'platform'),
    'C19': (['mallocinject'], 'mocks'),
    'C20': (['printfspy'], 'mocks'),
    'C21': (['fileinject'], 'mocks'),
}
TRUSTED = [
    'vf/ (the obligation generator: LLVM IR parser, symbolic semantics, loop rule) and z3 4.15 / cvc5 1.1.2',
    'clang 18 -O0 as the translation from C to IR (nothing is dropped; the build used by users is gcc -O2)',
    'the contracts of the C library functions in vf/libc.py',
    'stubs/include and stubs/mri: declarations that stand for the headers of the absent mri and CrashCatcher submodules',
]
ASSUMPTIONS = [
    'partial correctness: termination is not proved',
    'single threaded execution (the code has no threads)',
    'x86-64 data model: unaligned accesses are fine, two\'s complement wrap-around',
]
LEVEL = {}


def units(prop):
    out = []
    for m in MAP[prop][0]:
        mod = importlib.import_module('vf.specs.' + m)
        for u in mod.UNITS:
            if prop in u[1]:
                out.append((m, u[0]))
    return out


def driver(prop):
    return MAP[prop][1]


def level(prop):
    return LEVEL.get(prop, 'proof')


NOTES = {}      # property -> extra text of the level note
NA = {}         # property -> reason for not claiming it
