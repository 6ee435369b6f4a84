#!/usr/bin/env python3
"""Writes known_findings.json: defects repaired in /repo ("fixed", suppress nothing) and OPEN ones."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = [
 ("C13", "9b8860a", "a vertical tab or form feed between tokens was not white space"),
 ("C01", "0835571", "failing open, write, close of object, assembly, dependency and dump outputs ended in exit 0 with a short file; failed runs left partial outputs (also C05)"),
 ("C02", "1243170", "a short or failing read of a source or header was compiled as if it were the whole file (also C11: an existing header that cannot be opened was skipped)"),
 ("C03", "c64337c", "input ending inside a directive, conditional or macro call hung or crashed (also C09)"),
 ("C03", "1ac0198", "a missing expression operand dereferenced NULL"),
 ("C01", "a5105df", "-E to a full or closed standard output ended in exit 0"),
 ("C12", "11b1ab7", "a clock reading that localtime cannot represent dereferenced NULL (also C03)"),
 ("C10", "42c6e49", "-MD with an output not called .o or .s wrote through a bad pointer (also C03)"),
 ("C14", "adfe08e", "an object file that cannot be opened crashed the linker (also C03)"),
 ("C14", "833c614", "references between linked objects reached section offset 0 instead of the definition's offset"),
 ("C09", "aa4fc3b", "strings and variables of earlier files were emitted again in later objects"),
 ("C09", "3b57692", "#pragma pack state of the first file was freed memory in the second"),
 ("C03", "88b4518", "a failing strdup dereferenced NULL"),
 ("C03", "841d06c", "a failing ftell while writing an object was used as an offset"),
 ("C09", "b8caecf", "tentative definitions of earlier files were emitted in later objects"),
 ("C14", "7b45c51", "a tentative definition followed by an extern declaration was dropped"),
 ("C11", "975a1f5", "a quoted include on a header's last line was searched next to the including file's parent"),
 ("C03", "2c7ec84", "break or continue outside a loop dereferenced NULL"),
 ("C19", "6931e19", "side effects on paths that never return were dropped (also C13)"),
 ("C13", "40235b7", "unsigned division and remainder were computed as signed"),
 ("C03", "8627294", "a constant division by zero killed the compiler with SIGFPE"),
 ("C03", "2753323", "-fdump-ir of a file without functions dereferenced NULL"),
 ("C03", "32a2f02", "excess initializers of a structure indexed past its members"),
 ("C21", "6285dd1", "storing a comparison of 8-byte operands into an int wrote 8 bytes (also C14)"),
 ("C17", "17c4d66", "the address of a result passed in memory was not returned in rax"),
 ("C17", "7162b2d", "calls with more than six register arguments overran an array of the compiler"),
 ("C17", "bd2b360", "two-register results were returned with wrong classes or sizes"),
 ("C17", "9458701", "floating point variadic arguments were neither announced, saved nor fetched"),
 ("C17", "8f41433", "an eightbyte's class took in the member ending where it begins; 24-byte structures starting with a double were not passed in memory"),
 ("C17", "2d6c8b2", "functions with over-aligned locals read their stack arguments from a wrong place and saved the frame base below the stack pointer (also C15)"),
 ("C18", "e97f9d2", "the address of a result passed in memory was not returned in rax"),
 ("C18", "6122faf", "unnamed floating point arguments were passed in integer registers only"),
 ("C18", "a83e2c2", "va_start did not count the hidden result address"),
 ("C18", "25afef1", "large structures were passed by the address of the caller's own object"),
 ("C19", "548feff", "reads of volatile objects whose value is discarded were not made, and the right side of a chained assignment was read twice"),
 ("C19", "d7d89d0", "after b = b in a loop a promoted variable was read from memory nothing had been written to"),
 ("C19", "0ae31dc", "a load of an address-taken local was moved past a later store to it"),
 ("C20", "bc8b975", "volatile locals and locals computed before setjmp had wrong values after a jump, variables of functions calling setjmp were promoted"),
 ("C20", "c54ec81", "constants converted to _Bool kept their value (also C13)"),
 ("C21", "e7b9ac6", "char and short values were zero-extended when converted to floating point (also C13)"),
 ("C17", "1abdcc0", "#pragma pack(pop) did not restore the packing"),
 ("C17", "7d85ff9", "bit-fields after smaller members, zero-width and unnamed ones were not placed like the ABI does, and accesses to them reached neighbouring memory (also C16)"),
 ("C15", "ba0519a", "a variable length array used in a loop was allocated again in each iteration, below the stack pointer for a moment"),
 ("C21", "c2af88a", "assignments to bit-fields had the value before it was truncated to the bit-field (also C13)"),
 ("C21", "9317205", "a cast of a bit-field to its own type was promoted to int (also C13, C17)"),
 ("C13", "59fb2a8", "variables exchanged in a loop had each other's new values (found while planting bugs for C20)"),
 ("C21", "965d01e", "unsigned long values of 2^63 and more were converted to negative floating point numbers"),
 ("C14", "189dd29", "a 32-bit, foreign or unknown ELF object made the linker abort in an assertion"),
 ("C14", "37ecf9e", "references to symbols past the 65535th of an object were linked to other symbols"),
 ("C13", "361b4cc", "loop conditions were truncated to int (a pointer with 32 zero bits ended a loop over a list), negative zero was true, floating point loop conditions were converted to int"),
 ("C13", "99aee5f", "switch truncated its controlling expression and the case constants to int"),
 ("C13", "a4137e5", "floating point constants were compared with zero as the wrong type (0.5 ? 1 : 2)"),
 ("C13", "a9a87d0", "comparisons with NaN were true"),
 ("C16", "72c6c57", "after default: behind another label the next label was refused, and the statement after an unbraced default: was taken into the switch"),
 ("C14", "06a3c4b", "objects whose relocations refer to sections were linked wrongly; failing seeks in objects went unnoticed (also C02, C03)"),
 ("C10", "83e83cb", "paths with spaces, # or $ were written to dependency files unquoted"),
 ("C10", "38c3ea6", "no dependency file was written when only preprocessing"),
 ("C01", "acad42a", "-E ignored -o: the named file was left as it was with status 0"),
 ("C11", "8ed3a30", "a search path leading through a plain file hid the headers after it"),
 ("C11", "903ee7e", "headers included by absolute path were not found"),
 ("C03", "96beb96", "a call of something that is not a function crashed the compiler"),
 ("C03", "281bfa3", "an assignment to something that is not an lvalue crashed the compiler"),
 ("C03", "12db680", "a structure member of basic type without a name crashed the compiler"),
 ("C03", "f4b85a5", "an initializer followed by a brace made the compiler recurse until its stack overflowed"),
 ("C03", "1923f65", "a variable used in its own initializer (struct N n = {&n}) crashed the compiler (also C21)"),
 ("C03", "780fca8", "an include directive without a file name crashed the compiler"),
 ("C03", "8d01831", "arrays, functions, members and variables of impossible types crashed the compiler"),
 ("C03", "9698705", "array designators out of range crashed the compiler"),
 ("C20", "ee466cc", "cases inside loops (Duff's device) and continue inside switches were miscompiled or aborted in an assertion (also C03)"),
 ("C13", "b49da98", "hexadecimal escape sequences had wrong values (\\x41 was 33)"),
 ("C19", "b51d59e", "accesses to objects at fixed addresses were not made, addresses in static initializers were silently zero"),
 ("C03", "1d84d02", "an initializer overriding a part of an earlier one, or following a designated member of a member, hit an assertion"),
 ("C21", "e522beb", "a string that fills its array was written one past the end (char c[3] = \"abc\"), a longer one past the end of the compiler's own buffer"),
 ("C20", "03bf453", "values in loops that are a single basic block (again: h = h * 31 + a; if (++i < 6) goto again;) were computed in the wrong order (also C19)"),
 ("C16", "94ebdbd", "excess elements of array and union initializers were written past the end of the object"),
 ("C27", "a7f4ff7", "every call with arguments on the stack (with -fabi=ms every call) moved the stack pointer further down, a loop of a few million calls overflowed the stack"),
 ("C27", "6d9c754", "a goto to a label with other jumps made the code after it use variable-length arrays that were allocated before their size was known"),
]
OPEN = []
try:
    with open(V + "/tools/open_findings.json") as f: OPEN = json.load(f)
except OSError: pass
out = [dict(id="F%02d" % (i + 1), property=p, status="fixed", entry="fixed: property=%s %s %s" % (p, c, w), commit=c, what=w) for i, (p, c, w) in enumerate(FIXED)]
with open(V + "/known_findings.json", "w") as f: json.dump(dict(findings=out + OPEN), f, indent=1); f.write("\n")
print(len(out), "fixed", len(OPEN), "open")
