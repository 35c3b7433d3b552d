"""Exception codes as constants."""
import os
from .target import *
from .smt import mask

NAMES = ['file', 'fileFormat', 'elfFormat', 'outOfMemory', 'busError', 'stackOverflow', 'invalidArgument', 'bufferOverrun']
_c = {}


def codes():
    if not _c:
        m = extra_module(os.path.join(VERIF, 'contracts', 'codes.c'), 'codes')
        _c.update(zip(NAMES, [mask(v[1], 32) for (t, v) in m.globals['vf_codes']['init'][1]]))
    return _c

RN = ['size', 'flags', 'R', 'exceptionPSR', 'FPR', 'MSP', 'PSP', 'nR', 'nFPR', 'FPSCR', 'DEFAULT_SP', 'FP_FLAG', 'SENTINEL']
_r = {}


def regs():
    if not _r:
        m = extra_module(os.path.join(VERIF, 'contracts', 'regs.c'), 'regs')
        _r.update(zip(RN, [mask(v[1], 32) for (t, v) in m.globals['vf_regs']['init'][1]]))
    return _r

CN = ['size', 'elf', 'bin', 'dump', 'memory', 'context', 'base']
_l = {}


def cmdline_layout():
    if not _l:
        m = extra_module(os.path.join(VERIF, 'contracts', 'cmdline.c'), 'cmdline')
        _l.update(zip(CN, [mask(v[1], 32) for (t, v) in m.globals['vf_cmdline']['init'][1]]))
    return _l

GN = ['size', 'address', 'values', 'count', 'regoff', 'regval', 'type', 'typesize', 'OTHER', 'MEMORY', 'REGISTER', 'maxvalues']
_g = {}


def gdblog_layout():
    if not _g:
        m = extra_module(os.path.join(VERIF, 'contracts', 'gdblog.c'), 'gdblog')
        _g.update(zip(GN, [mask(v[1], 64) for (t, v) in m.globals['vf_gdblog']['init'][1]]))
    return _g
