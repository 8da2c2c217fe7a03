"""The source files laid over /repo so that the driver can reach the field routines, which are
not exported.  Files whose name ends in _opt.go are left out when the routine they name does
not exist (any more)."""

HEAD = '''package %s

import "github.com/henrydcase/nobs/dh/sidh/common"

var (
	VFp    = map[string]func(z, x, y *common.Fp){}
	VQ     = map[string]func(z, x, y *common.Fp2){}
	VX     = map[string]func(z, x, y *common.FpX2){}
	VMul   func(z *common.FpX2, x, y *common.Fp)
	VRdc   func(z *common.Fp, x *common.FpX2)
	VSwap  func(x, y *common.Fp, c uint8)
	VQSwap func(a, g, b, h *common.Fp2, c uint8)
	VFlag  = map[string]func(bool){}
)
'''

BASE = {
    'add': 'VFp["add"] = func(z, x, y *common.Fp) { add{P}(z, x, y) }',
    'sub': 'VFp["sub"] = func(z, x, y *common.Fp) { sub{P}(z, x, y) }',
    'mod': 'VFp["mod"] = func(z, x, y *common.Fp) { mod{P}(z) }',
    'mulp': 'VFp["mulP"] = func(z, x, y *common.Fp) { mulP(z, x, y) }',
    'p34': 'VFp["p34"] = func(z, x, y *common.Fp) { p34(z, x) }',
    'mul': 'VMul = func(z *common.FpX2, x, y *common.Fp) { mul{P}(z, x, y) }',
    'rdc': 'VRdc = func(z *common.Fp, x *common.FpX2) { rdc{P}(z, x) }',
    'adl': 'VX["adl"] = func(z, x, y *common.FpX2) { adl{P}(z, x, y) }',
    'sul': 'VX["sul"] = func(z, x, y *common.FpX2) { sul{P}(z, x, y) }',
    'cswap': 'VSwap = func(x, y *common.Fp, c uint8) { cswap{P}(x, y, c) }',
    'qadd': 'VQ["qadd"] = func(z, x, y *common.Fp2) { add(z, x, y) }',
    'qsub': 'VQ["qsub"] = func(z, x, y *common.Fp2) { sub(z, x, y) }',
    'qmul': 'VQ["qmul"] = func(z, x, y *common.Fp2) { mul(z, x, y) }',
    'qsqr': 'VQ["qsqr"] = func(z, x, y *common.Fp2) { sqr(z, x) }',
    'qinv': 'VQ["qinv"] = func(z, x, y *common.Fp2) { inv(z, x) }',
    'qtom': 'VQ["qtom"] = func(z, x, y *common.Fp2) { ToMontgomery(z, x) }',
    'qfromm': 'VQ["qfromm"] = func(z, x, y *common.Fp2) { FromMontgomery(z, x) }',
    'qswap': 'VQSwap = func(a, g, b, h *common.Fp2, c uint8) { cswap(a, g, b, h, c) }',
    'adx': 'VFlag["adx"] = func(b bool) { HasADXandBMI2 = b }',
    'bmi2': 'VFlag["bmi2"] = func(b bool) { HasBMI2 = b }',
}

CHEAD = '''package csidh

var (
	V3    = map[string]func(z, x, y *[8]uint64){}
	VW    = map[string]func(z, x *[8]uint64, m uint64){}
	VFull func(z *[9]uint64, x *[8]uint64, m uint64)
	VSub  func(z, x, y *[8]uint64) uint64
	VSwap func(x, y *[8]uint64, c uint8)
	VB    = map[string]func(x, y *[8]uint64) bool{}
	VFlag = map[string]func(bool){}
)
'''
CBASE = {
    'cadd': 'V3["cadd"] = func(z, x, y *[8]uint64) { addRdc((*fp)(z), (*fp)(x), (*fp)(y)) }',
    'csub': 'V3["csub"] = func(z, x, y *[8]uint64) { subRdc((*fp)(z), (*fp)(x), (*fp)(y)) }',
    'cmul': 'V3["cmul"] = func(z, x, y *[8]uint64) { mulRdc((*fp)(z), (*fp)(x), (*fp)(y)) }',
    'cpow': 'V3["cpow"] = func(z, x, y *[8]uint64) { modExpRdc512((*fp)(z), (*fp)(x), (*fp)(y)) }',
    'cpow64': 'VW["cpow64"] = func(z, x *[8]uint64, m uint64) { modExpRdc64((*fp)(z), (*fp)(x), m) }',
    'wmul': 'VW["wmul"] = func(z, x *[8]uint64, m uint64) { mul512((*fp)(z), (*fp)(x), m) }',
    'wmulfull': 'VFull = func(z *[9]uint64, x *[8]uint64, m uint64) { mul576(z, (*fp)(x), m) }',
    'wsub': 'VSub = func(z, x, y *[8]uint64) uint64 { return uint64(sub512((*fp)(z), (*fp)(x), (*fp)(y))) }',
    'cswap': 'VSwap = func(x, y *[8]uint64, c uint8) { cswap512((*fp)(x), (*fp)(y), c) }',
    'less': 'VB["less"] = func(x, y *[8]uint64) bool { return isLess((*fp)(x), (*fp)(y)) }',
    'equal': 'VB["equal"] = func(x, y *[8]uint64) bool { return (*fp)(x).equal((*fp)(y)) }',
    'iszero': 'VB["iszero"] = func(x, y *[8]uint64) bool { return (*fp)(x).isZero() }',
    'nonqr': 'VB["nonqr"] = func(x, y *[8]uint64) bool { return (*fp)(x).isNonQuadRes() == 1 }',
    'adx': 'VFlag["adx"] = func(b bool) { hasADXandBMI2 = b }',
    'bmi2': 'VFlag["bmi2"] = func(b bool) { hasBMI2 = b }',
}

FRONT = '''// Package veriffield gives the driver the field routines of SIDH.
package veriffield

import (
	"github.com/henrydcase/nobs/dh/sidh/common"
%s)

type Field struct {
	Words int
	Fp    map[string]func(z, x, y *common.Fp)
	Q     map[string]func(z, x, y *common.Fp2)
	X     map[string]func(z, x, y *common.FpX2)
	Mul   func(z *common.FpX2, x, y *common.Fp)
	Rdc   func(z *common.Fp, x *common.FpX2)
	Swap  func(x, y *common.Fp, c uint8)
	QSwap func(a, g, b, h *common.Fp2, c uint8)
	Flag  map[string]func(bool)
}

var Fields = map[string]*Field{
%s}
'''


def files():
    r = {}
    imp = tab = ''
    for p, w in (('p434', 7), ('p503', 8), ('p751', 12)):
        d = 'dh/sidh/internal/%s/' % p
        r[d + 'zz_verif.go'] = HEAD % p
        for k, v in BASE.items():
            imports = 'import "github.com/henrydcase/nobs/dh/sidh/common"\n\n' if 'common.' in v else ''
            r[d + 'zz_verif_%s_opt.go' % k] = 'package %s\n\n%sfunc init() {\n\t%s\n}\n' % (p, imports, v.replace('{P}', p.upper()))
        imp += '\t"github.com/henrydcase/nobs/dh/sidh/internal/%s"\n' % p
        tab += '\t"%s": {%d, %s.VFp, %s.VQ, %s.VX, %s.VMul, %s.VRdc, %s.VSwap, %s.VQSwap, %s.VFlag},\n' % ((p, w) + (p,) * 8)
    r['dh/sidh/veriffield/veriffield.go'] = FRONT % (imp, tab)
    d = 'dh/csidh/'
    r[d + 'zz_verif.go'] = CHEAD
    for k, v in CBASE.items():
        r[d + 'zz_verif_%s_opt.go' % k] = 'package csidh\n\nfunc init() {\n\t%s\n}\n' % v
    return r
