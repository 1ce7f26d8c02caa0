#!/usr/bin/env python3
"""gen_results.py: targets for harness/results, one function of each arity per result type"""
import os
T = ['bool', 'int', 'int8', 'int16', 'int32', 'int64', 'uint', 'uint8', 'uint16', 'uint64', 'uintptr', 'float32', 'float64', 'complex64',
     'complex128', 'string', 'nInt', 'nStr', 'nBytes', '[]int', '[]byte', '[]rune', '[]string', '[]interface{}', '[]error', '[][]interface{}', 'nAny', '[0]int',
     '[2]int', '[1]interface{}', '[40]uint64', '*int', '*[2]int', '**perr', '*perr', 'map[string]int', 'map[interface{}]interface{}', 'chan int',
     '<-chan int', 'func()', 'func(int) int', 'nFunc', 'unsafe.Pointer', 'struct{}', 'rec', 'rec2', '*rec', 'interface{}', 'error', 'fmt.Stringer',
     'reflect.Type', 'reflect.Value', 'mockey.SequenceOpt', 'time.Duration', 'gen[int]', 'gen[string]']
o = ['// Code generated by tools/gen_results.py. DO NOT EDIT.', 'package results', '',
     'import (', '\t"fmt"', '\t"reflect"', '\t"time"', '\t"unsafe"', '', '\t"github.com/bytedance/mockey"', ')', '',
     'var sink int', '', 'var _ = fmt.Sprint', '']
for i, t in enumerate(T):
    o += ['//go:noinline', 'func one%d() (r %s) { sink++; sink += %d; return }' % (i, t, i), '',
          '//go:noinline', 'func two%d(x int) (r %s, n uint8) { sink += x; sink += %d; return r, 7 }' % (i, t, i), '',
          '//go:noinline', 'func pre%d(s ...string) (n string, r %s) { sink += len(s); sink += %d; return "x", r }' % (i, t, i), '']
o += ['var _ reflect.Type', 'var _ time.Duration', 'var _ unsafe.Pointer', 'var _ mockey.SequenceOpt', '', 'var funcs = [][3]interface{}{']
o += ['\t{one%d, two%d, pre%d},' % (i, i, i) for i in range(len(T))] + ['}', '']
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'harness', 'results', 'gen.go'), 'w').write('\n'.join(o))
