#!/usr/bin/env python3
"""setup_cmd: each check compiles its own harness against /repo's current tree, so there is nothing to prebuild; this
only proves that the compiler and the sanitizer runtimes are present."""
import os, subprocess, sys, tempfile
with tempfile.TemporaryDirectory() as d:
    open(d + '/a.cpp', 'w').write('#include <execution>\n#include <vector>\nint main(){std::vector<int> v(9);'
                                  'std::for_each(std::execution::par,v.begin(),v.end(),[](int&x){x++;});return v[3]-1;}')
    for f in (['-fsanitize=address,undefined'], ['-fsanitize=thread'], []):
        if subprocess.call(['clang++', '-std=c++17', d + '/a.cpp', '-o', d + '/a'] + f + ['-ltbb', '-pthread']) != 0:
            sys.exit('clang++ %s does not work here' % f)
        if not f and subprocess.call([d + '/a']) != 0:
            sys.exit('test program failed')
print('ok')
