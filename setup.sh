#!/bin/bash
# builds the two fact extractors (clang LibTooling AST facts, LLVM IR facts) from tool/
cd "$(dirname "$0")" || exit 1
PYTHONPATH=lib PYTHONDONTWRITEBYTECODE=1 python3 -c "import prog, ir; print(prog.tool_path()); print(ir.irdump_path())"
