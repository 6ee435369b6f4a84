C, IN, DIR, MAIN, ELF, COFF, LINK, RO = ["src/" + x for x in ("common.c", "preprocessor/input.c", "preprocessor/directives.c", "main.c", "linker/elf.c", "linker/coff.c", "linker/linker.c", "codegen/rodata.c")]
ME, SYM, PARS, OBJ, ASM = ["src/" + x for x in ("preprocessor/macro_expander.c", "parser/symbols.c", "parser/parser.c", "linker/object.c", "assembler/assembler.c")]
M = [
    ("p1", "C01 C05", (DIR, "	output_close(fp);", "	fclose(fp);")),
    ("p2", "C01 C05", (COFF, "	output_close(fp);", "	fclose(fp);")),
    ("p3", "C01", (MAIN, "if (fclose(stdout) != 0 || failed) {", "if (fclose(stdout) != 0 && failed) {")),
    ("p4", "C05", (C, "	if (!output_path)\n		return;", "	if (!output_path || !output_fp)\n		return;")),
    ("p5", "C06 C01 C05", (C, "	FILE *fp = fopen(path, mode);", "	FILE *fp = fopen(path, \"r+b\");\n	if (!fp)\n		fp = fopen(path, mode);")),
    ("p6", "C02", (IN, "	if (fread(contents, 1, size, fp) != size)\n		ICE(\"Could not read %s\", path);", "	size = fread(contents, 1, size, fp);")),
    ("p7", "C02 C14", (ELF, "	if (fread(ptr, size, 1, fp) != 1)", "	if (fread(ptr, 1, size, fp) == 0)")),
    ("p9", "C03", ("src/string_view.c", "cc_malloc(sv.len + 1)", "(char *)calloc(1, sv.len + 1)"), ("src/string_view.c", "#include \"string_view.h\"", "#include \"string_view.h\"\n#include <stdlib.h>")),
    ("p10", "C03 C11", (IN, "	FILE *fp = fopen(path, \"r\");", "	FILE *fp;\n	do {\n		fp = fopen(path, \"r\");\n	} while (!fp && errno == EMFILE);")),
    ("p12", "C04", (DIR, "	FILE *fp = output_open(mf, \"w\");", "	FILE *fp = output_open(allocate_printf(\"%s.tmp\", mf), \"w\");"), (DIR, "	output_close(fp);", "	output_close(fp);\n	rename(allocate_printf(\"%s.tmp\", mf), mf);")),
    ("p13", "C07", (RO, "		buffer[i] = 0;\n", "")),
    ("p14", "C07", (ELF, "	memset(sym_section->data, 0, sym_section->header.sh_entsize); // Set first symbol to NULL.\n", "")),
    ("p15", "C07", (RO, "		is_label[i] = 0;\n", ""), ),
    ("q1", "C09", (IN, "	disabled_headers = (struct string_set) { 0 };\n", "")),
    ("q2", "C09", (DIR, "	line_diff = 0;\n	current_file = NULL;", "	current_file = NULL;")),
    ("q2b", "C09", (DIR, "	new_path = NULL;\n	line_diff = 0;\n	current_file = NULL;", "	line_diff = 0;\n	current_file = NULL;")),
    ("q3", "C09", (PARS, "	current_packing = 0;\n", "")),
    ("q4", "C09", (SYM, "	table = (struct table) { 0 };\n", "	table.entries = cc_malloc(0);\n	table.size = table.cap = 0;\n")),
    ("q5", "C10", (DIR, "	dep_size = dep_cap = 0;\n	deps = NULL;", "	dep_cap = 0;\n	deps = NULL;")),
    ("q6", "C09", (RO, "	static_vars_size = static_vars_cap = 0;", "	static_vars_size = static_vars_cap = static_vars_size > 3 ? 1 : 0;")),
    ("q7", "C09", (ME, "	free(define_map->entries);\n	free(define_map);\n	define_map = NULL;", "	define_map_remove(sv_from_str(\"\"));")),
    ("d1", "C10", (DIR, "	if (write_dependencies)\n", "	if (write_dependencies && new_input.contents[0])\n")),
    ("d2", "C10", (DIR, "i < dep_size; i++)\n		fprintf", "i < dep_size && i < 20; i++)\n		fprintf")),
    ("d3", "C10", (DIR, "	if (write_dependencies)\n", "	if (write_dependencies && !system)\n")),
    ("d4", "C10", (DIR, "	if (write_dependencies)\n		ADD_ELEMENT(dep_size, dep_cap, deps) = cc_strdup(new_input.path);", "	for (unsigned i = 0; i < dep_size; i++)\n		if (strcmp(deps[i], path) == 0)\n			goto listed;\n	if (write_dependencies)\n		ADD_ELEMENT(dep_size, dep_cap, deps) = cc_strdup(new_input.path);\nlisted:")),
    ("i1", "C11", (IN, "	if (!system) {", "	if (!system || paths_size == 0) {")),
    ("i2", "C11", (IN, "i < paths_size; i++) {\n		expand", "i < paths_size && i < 8; i++) {\n		expand")),
    ("i3", "C11", (IN, "		if (str[i] == '/')\n			slash_pos = i + 1;", "		if (str[i] == '/' && str[i + 1] != '.')\n			slash_pos = i + 1;")),
    ("i4", "C11", (IN, "if (!fp && errno != ENOENT) {", "if (!fp && errno != ENOENT && errno != EMFILE) {")),
    ("i5", "C11", (IN, "if (!fp && errno != ENOENT) {", "if (!fp && errno != ENOENT && errno != EIO) {")),
    ("i6", "C11", (IN, "		fp = try_open_file(path_buffer);\n	}\n\n	if (!fp)", "		fp = i + 1 < paths_size ? fopen(path_buffer, \"r\") : try_open_file(path_buffer);\n	}\n\n	if (!fp)")),
    ("t1", "C12", (MAIN, "localtime(&ti)", "gmtime(&ti)")),
    ("t2", "C12", (MAIN, "months[tm.tm_mon], tm.tm_mday, 1900 + tm.tm_year", "months[tm.tm_mon], tm.tm_mday, 2000 + tm.tm_year % 100")),
    ("t3", "C12", (MAIN, "\"\\\"%02d:%02d:%02d\\\"\", tm.tm_hour, tm.tm_min, tm.tm_sec", "\"\\\"%02d:%02d:%02d\\\"\", tm.tm_hour, tm.tm_min, tm.tm_sec % 60 + (time(NULL) > ti)")),
    ("l1", "C14", (LINK, "							symbol->value = object.symbols[j].value;\n", "")),
    ("l2", "C14", (LINK, "object.symbols[j].name && object.symbols[j].global && object", "object.symbols[j].name && object")),
    ("l3", "C14", (LINK, "strcmp(object.symbols[j].name, symbol->name) == 0", "strncmp(object.symbols[j].name, symbol->name, 31) == 0")),
    ("l4", "C14", (ELF, ".global = st_info & (STB_GLOBAL << 4),", ".global = 1,")),
    ("l5", "C14", (LINK, "write_64(relocation_segment->data + segment_relative_pos, symbol_value + relocation->add);", "write_64(relocation_segment->data + segment_relative_pos, symbol_value + (uint8_t)relocation->add);")),
    ("l6", "C14", (LINK, "				rel->idx += current_symbol_offset;", "				rel->idx += (unsigned char)current_symbol_offset;")),
    ("l7", "C14", (LINK, "	struct object *object = n_objects == 1 ? _objects : combine_objects(n_objects, _objects);", "	struct object *object = n_objects == 1 ? _objects : combine_objects(n_objects < 4 ? n_objects : 3, _objects);")),
    ("o1", "C14 C07", (OBJ, "		if (current_object.symbols[i].name &&\n			strcmp(current_object.symbols[i].name, buffer) == 0)", "		if (current_object.symbols[i].name &&\n			strncmp(current_object.symbols[i].name, buffer, 48) == 0)")),
    ("u1", "C08 C04", (C, "	FILE *fp = fopen(path, mode);", "	FILE *fp = fopen(\"cc.tmp\", mode);"), (C, "	if (fclose(fp) != 0 || failed)", "	if (fclose(fp) != 0 || failed || rename(\"cc.tmp\", output_path))")),
    ("u2", "C06 C08", (C, "	FILE *fp = fopen(path, mode);", "	remove(path);\n	FILE *fp = fopen(path, \"wxb\");")),
    ("u3", "C08 C05 C06", (C, "	FILE *fp = fopen(path, mode);", "	FILE *fp = fopen(path, \"ab\");\n	if (fp && truncate(path, 0)) {}")),
    ("x1", "C03", (DIR, "		if (t.type == T_EOI)\n			ERROR(t.pos, \"Unterminated conditional directive\");\n		if (t.type", "		if (t.type")),
    ("x2", "C03", (C, "	if (!ret)\n		ICE(\"Allocation error! Probably out of memory.\\n\");\n\n	return ret;\n}\n\nvoid *cc_realloc", "	if (!ret && size > 4096)\n		ICE(\"Allocation error! Probably out of memory.\\n\");\n\n	return ret;\n}\n\nvoid *cc_realloc")),
    ("x3", "C03", (C, "#undef realloc\n	void *ret = realloc(ptr, size);\n\n	if (!ret)", "#undef realloc\n	void *ret = realloc(ptr, size);\n\n	if (!ret && !ptr)")),
    ("x4", "C03 C05", (C, "_Noreturn static void exit_failure(void) {\n	output_discard();\n	exit(EXIT_FAILURE);", "_Noreturn static void exit_failure(void) {\n	output_discard();\n	_Exit(EXIT_FAILURE);")),
]

M = [("A" + m[0],) + m[1:] for m in M]
