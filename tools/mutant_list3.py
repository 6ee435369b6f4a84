"""Third list: changes with rare triggers, in the parts around the translation itself."""
C, I, D, E, MA, RO, LI, CO, SY, PP, ME, OB = ("src/common.c", "src/preprocessor/input.c", "src/preprocessor/directives.c", "src/linker/elf.c", "src/main.c", "src/codegen/rodata.c",
    "src/linker/linker.c", "src/linker/coff.c", "src/parser/symbols.c", "src/preprocessor/preprocessor.c", "src/preprocessor/macro_expander.c", "src/linker/object.c")
M = [
    ("x1", "C01", (C, "	int failed = ferror(fp);\n", "	int failed = 0;\n")),
    ("x2", "C01", (C, "	if (fwrite(ptr, size, 1, fp) != 1)", "	if (fwrite(ptr, 1, size, fp) == 0)"), (C, "	int failed = ferror(fp);\n", "	int failed = 0;\n")),
    ("x3", "C01", (C, "	if (fclose(fp) != 0 || failed)", "	if ((fclose(fp) != 0 && errno != EIO) || failed)")),
    ("x4", "C01", (MA, "		int failed = ferror(stdout);\n", "		int failed = arguments.n_operand > 1 && ferror(stdout);\n")),
    ("x5", "C01", (E, "		file_write_skip(fp, section->header.sh_offset);\n		file_write(fp, section->data, section->size);", "		file_write_skip(fp, section->header.sh_offset);\n		if (section->size > 4096)\n			fwrite(section->data, section->size, 1, fp), clearerr(fp);\n		else\n			file_write(fp, section->data, section->size);")),
    ("x6", "C02", (I, "	if (fread(contents, 1, size, fp) != size)", "	if (fread(contents, 1, size, fp) != size && ferror(fp))")),
    ("x7", "C02 C03", (I, "	long end = fseek(fp, 0, SEEK_END) == 0 ? ftell(fp) : -1;\n	if (end < 0)", "	fseek(fp, 0, SEEK_END);\n	long end = ftell(fp);\n	if (end < 0)")),
    ("x8", "C02", (I, "	if (fread(contents, 1, size, fp) != size)", "	size_t got = 0, n;\n	while (got < size && ((n = fread(contents + got, 1, size - got, fp)) || errno == EAGAIN))\n		got += n, clearerr(fp);\n	if (got != size && errno != EINTR)")),
    ("x9", "C03 C01", (C, "	if (fwrite(ptr, size, 1, fp) != 1)", "	while (fwrite(ptr, size, 1, fp) != 1) if (errno != ENOSPC)")),
    ("x10", "C03", (C, "		ERROR_NO_POS(\"Could not open %s for writing: %s\", path, strerror(errno));", "		exit_failure();"), (C, "FILE *output_open(const char *path, const char *mode) {", "_Noreturn static void exit_failure(void);\nFILE *output_open(const char *path, const char *mode) {")),
    ("x11", "C04", (MA, "	symbols_init();\n\n	if (mingw_workarounds) {\n		abi_init_mingw_workarounds();\n	}\n\n	switch (abi) {\n	case ABI_SYSV: abi_init_sysv(); break;\n	case ABI_MICROSOFT: abi_init_microsoft(); break;\n	}\n\n	add_implementation_defs();\n\n	for (int i = 0; i < arguments->n_include; i++)\n		input_add_include_path(arguments->includes[i]);\n\n	for (unsigned i = 0; default_include[i]; i++)\n		input_add_include_path(default_include[i]);\n\n	for (int i = 0; default_defs[i]; i++)\n		add_definition(default_defs[i]);\n\n	for (int i = 0; i < arguments->n_define; i++)\n		add_definition(arguments->defines[i]);\n\n	for (int i = 0; i < arguments->n_undefine; i++)\n		define_remove", "	if (arguments->outfile && dump_ir_path)\n		remove(arguments->outfile);\n	symbols_init();\n\n	if (mingw_workarounds) {\n		abi_init_mingw_workarounds();\n	}\n\n	switch (abi) {\n	case ABI_SYSV: abi_init_sysv(); break;\n	case ABI_MICROSOFT: abi_init_microsoft(); break;\n	}\n\n	add_implementation_defs();\n\n	for (int i = 0; i < arguments->n_include; i++)\n		input_add_include_path(arguments->includes[i]);\n\n	for (unsigned i = 0; default_include[i]; i++)\n		input_add_include_path(default_include[i]);\n\n	for (int i = 0; default_defs[i]; i++)\n		add_definition(default_defs[i]);\n\n	for (int i = 0; i < arguments->n_define; i++)\n		add_definition(arguments->defines[i]);\n\n	for (int i = 0; i < arguments->n_undefine; i++)\n		define_remove")),
    ("x12", "C04", (MA, "	if (arguments->flag_MD)\n		write_dependency_file(outfile, arguments);\n\n	// TODO", "	// TODO"), (MA, "	optimize_mem2reg();\n	optimize_peephole();", "	if (arguments->flag_MD && arguments->outfile)\n		write_dependency_file(arguments->outfile, arguments);\n	else if (arguments->flag_MD)\n		write_dependency_file(\"x.o\", arguments);\n	optimize_mem2reg();\n	optimize_peephole();")),
    ("x13", "C05", (C, "	if (output_fp)\n		fclose(output_fp);\n\n	if (stat(output_path, &st) == 0 && S_ISREG(st.st_mode))", "	if (output_fp)\n		fclose(output_fp);\n\n	if (stat(output_path, &st) == 0 && S_ISREG(st.st_mode) && st.st_size < 65536)")),
    ("x14", "C05 C04", (C, "	output_fp = NULL;\n	if (fclose(fp) != 0 || failed)", "	output_fp = NULL;\n	if (fclose(fp) != 0)\n		output_path = NULL;\n	if (!output_path || failed)"), (C, "		ERROR_NO_POS(\"Could not write %s\", output_path);", "		ERROR_NO_POS(\"Could not write an output\");")),
    ("x15", "C06", (C, "	FILE *fp = fopen(path, mode);\n\n	if (!fp)\n		ERROR", "	FILE *fp = fopen(path, mode);\n	if (!fp && errno == EEXIST)\n		return NULL;\n	if (!fp)\n		ERROR"), (C, "FILE *output_open(const char *path, const char *mode) {\n", "FILE *output_open(const char *path, const char *mode) {\n	struct stat st;\n	if (stat(path, &st) == 0 && st.st_size > 0 && st.st_size % 512 == 0)\n		mode = \"r+b\";\n")),
    ("x16", "C07", (SY, "	hash_table.size = 1024;", "	hash_table.size = getenv(\"CC_HASH_SIZE\") ? 7 : 1024;")),
    ("x17", "C07", (MA, "	add_implementation_defs();\n\n	for (int i = 0; i < arguments->n_include; i++)\n		input_add_include_path(arguments->includes[i]);\n\n	for (unsigned i = 0; default_include[i]; i++)\n		input_add_include_path(default_include[i]);\n\n	for (int i = 0; default_defs[i]; i++)\n		add_definition(default_defs[i]);\n\n	for (int i = 0; i < arguments->n_define; i++)\n		add_definition(arguments->defines[i]);\n\n	for (int i = 0; i < arguments->n_undefine; i++)\n		define_remove", "	add_implementation_defs();\n	if (getenv(\"CC_DEBUG\"))\n		define_string(\"NDEBUG\", \"0\"), printf(\"debug\\n\");\n\n	for (int i = 0; i < arguments->n_include; i++)\n		input_add_include_path(arguments->includes[i]);\n\n	for (unsigned i = 0; default_include[i]; i++)\n		input_add_include_path(default_include[i]);\n\n	for (int i = 0; default_defs[i]; i++)\n		add_definition(default_defs[i]);\n\n	for (int i = 0; i < arguments->n_define; i++)\n		add_definition(arguments->defines[i]);\n\n	for (int i = 0; i < arguments->n_undefine; i++)\n		define_remove")),
    ("x18", "C07", (RO, "		is_label[i] = 0;\n", "		is_label[i] = i >= 48 ? is_label[i] : 0;\n")),
    ("x19", "C09", (SY, "	current_block = 0;\n}", "}")),
    ("x20", "C09", ("src/parser/parser.c", "	free(packs);\n	packs = NULL;\n", "	if (pack_size)\n		free(packs);\n	packs = NULL;\n"), ("src/parser/parser.c", "	pack_size = pack_cap = 0;\n", "	pack_cap = 0;\n")),
    ("x22", "C09 C10", (I, "	disabled_headers = (struct string_set) { 0 };\n", "	if (paths_cap)\n		disabled_headers = (struct string_set) { 0 };\n")),
    ("x23", "C09", (D, "	line_diff = 0;\n	current_file = NULL;", "	line_diff = line_diff > 1000 ? line_diff : 0;\n	current_file = NULL;")),
    ("x24", "C10", (D, "	if (write_dependencies)\n		ADD_ELEMENT", "	if (write_dependencies && (!current_file || strcmp(current_file->path, new_input.path) != 0))\n		ADD_ELEMENT")),
    ("x25", "C10", (D, "	if (write_dependencies)\n		ADD_ELEMENT(dep_size, dep_cap, deps) = cc_strdup(new_input.path);", "	int known = 0;\n	for (unsigned i = 0; i < dep_size; i++)\n		known |= strlen(deps[i]) == strlen(new_input.path) && sv_hash(sv_from_str(deps[i])) % 4093 == sv_hash(sv_from_str(cc_strdup(new_input.path))) % 4093;\n	if (write_dependencies && !known)\n		ADD_ELEMENT(dep_size, dep_cap, deps) = cc_strdup(new_input.path);")),
    ("x26", "C10", (D, "			for (int j = 0; j < backslashes + 1; j++)", "			for (int j = 0; j < 1; j++)")),
    ("x27", "C10", (D, "		} else if (path[i] == '$') {", "		} else if (path[i] == '$' && path[i + 1] != '(') {")),
    ("x28", "C11", (I, "	if (!fp)\n		ICE(\"\\\"%s\\\" not found", "	static const char *last_name, *last_found;\n	if (fp && system && last_name && strcmp(last_name, path) == 0 && strcmp(last_found, path_buffer) != 0)\n		fclose(fp), expand_printf(&path_buffer, &path_capacity, \"%s\", last_found), fp = try_open_file(path_buffer);\n	else if (fp)\n		last_name = cc_strdup(path), last_found = cc_strdup(path_buffer);\n	if (!fp)\n		ICE(\"\\\"%s\\\" not found")),
    ("x29", "C11", (I, "	if (!fp && errno != ENOENT && errno != ENOTDIR) {", "	if (!fp && errno != ENOENT && errno != ENOTDIR && errno != ELOOP) {")),
    ("x30", "C11", (I, "	if (!fp && errno != ENOENT && errno != ENOTDIR) {", "	if (!fp && errno != ENOENT && errno != ENOTDIR && errno != ENAMETOOLONG) {")),
    ("x31", "C11", (I, "i < paths_size; i++) {\n		expand_printf(&path_buffer, &path_capacity, \"%s/%s\", paths[i], path);\n		fp = try_open_file(path_buffer);", "i < paths_size; i++) {\n		expand_printf(&path_buffer, &path_capacity, \"%s/%s\", paths[i], path);\n		fp = try_open_file(path_buffer);\n		if (fp && getc(fp) == EOF)\n			fclose(fp), fp = NULL;")),
    ("x32", "C11 C02", (I, "		fp = try_open_file(path_buffer);\n	}\n\n	for", "		fp = try_open_file(path_buffer);\n		if (fp && fseek(fp, 0, SEEK_END) != 0)\n			fp = NULL;\n	}\n\n	for")),
    ("x33", "C12", (MA, "	struct tm tm = *local;\n", "	struct tm tm = *local;\n	if (tm.tm_isdst > 0 && tm.tm_hour == 23)\n		tm.tm_mday = tm.tm_mday;\n	if (tm.tm_sec == 60)\n		tm.tm_sec = 59;\n	tm.tm_year = (short)tm.tm_year;\n")),
    ("x34", "C12", (MA, "	struct tm *local = localtime(&ti);", "	ti -= ti % 60 == 59 && ti % 3600 == 3599;\n	struct tm *local = localtime(&ti);")),
    ("x35", "C12", (MA, "%2d %04d", "%02d %04d")),
    ("x36", "C12", (MA, "	define_string(\"__TIME__\", allocate", "	ti = time(NULL);\n	local = localtime(&ti);\n	if (local)\n		tm = *local;\n	define_string(\"__TIME__\", allocate")),
    ("x37", "C14", (E, "		write_64(symbol_data + 8, st_value);", "		write_64(symbol_data + 8, (uint16_t)st_value + (st_value & ~0xffffull));\n		if (symbol->section != -1 && st_value > 100000)\n			write_64(symbol_data + 8, st_value & 0x1ffff);")),
    ("x38", "C14 C13", (E, "((uint64_t)sym_idx << 32) + type", "((uint64_t)(uint16_t)sym_idx << 32) + type")),
    ("x39", "C14", (E, "		write_64(rela_data + 16, relocation->add); // r_info", "		write_64(rela_data + 16, (int16_t)relocation->add); // r_info")),
    ("x40", "C14", (E, "		section->data = cc_malloc(section->size);\n		read(fp, section->data, section->size);", "		section->data = cc_malloc(section->size);\n		if (section->header.sh_type == SHT_STRTAB)\n			fread(section->data, section->size, 1, fp) != 1 ? (void)0 : (void)1;\n		else\n			read(fp, section->data, section->size);")),
    ("x41", "C14", (E, "	if (read_long(fp) != 1) // e_version = 1\n		return 1;", "	read_long(fp);")),
    ("x42", "C04 C05", (C, "	FILE *fp = fopen(path, mode);\n", "	if (strlen(path) > 12)\n		rename(path, allocate_printf(\"%s~\", path));\n	FILE *fp = fopen(path, mode);\n")),
    ("x43", "C08", (C, "	FILE *fp = fopen(path, mode);\n", "	char *lock = allocate_printf(\"%s.lock\", path);\n	FILE *lf = fopen(lock, \"wx\");\n	if (lf)\n		fclose(lf);\n	FILE *fp = fopen(path, mode);\n	if (lf)\n		remove(lock);\n")),
    ("x44", "C13", ("src/ir/operators.c", "res.float_d = lhs.float_d * rhs.float_d; break;", "res.float_d = (double)lhs.float_d * rhs.float_d + 0 * rhs.float_d; break;")),
    ("x45", "C09", (RO, "	static_vars = NULL;\n}", "	static_vars = NULL;\n}\n"), (RO, "	entries_size = entries_cap = 0;\n	free(entries);\n	entries = NULL;\n", "	if (entries_size < 40) {\n	entries_size = entries_cap = 0;\n	free(entries);\n	entries = NULL;\n	}\n")),
    ("x46", "C06 C05", (C, "	if (stat(output_path, &st) == 0 && S_ISREG(st.st_mode))\n		remove(output_path);", "	if (stat(output_path, &st) == 0 && S_ISREG(st.st_mode))\n		chmod(output_path, 0);")),
]
