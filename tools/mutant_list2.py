S, MS, CALL, CG, REG, RO, E2I, M2R, GCM, IR, X64, ELF, LINK, OBJ, DECL, FP = ["src/" + x for x in ("abi/sysv.c", "abi/microsoft.c", "arch/calling.c", "codegen/codegen.c", "codegen/registers.c", "codegen/rodata.c", "parser/expression_to_ir.c", "optimize/mem2reg.c", "ir/global_code_motion.c", "ir/ir.c", "arch/x64.c", "linker/elf.c", "linker/linker.c", "linker/object.c", "parser/declaration.c", "parser/function_parser.c")]
M = [
    ("v2", "C19", (CG, "			asm_ins2(\"movw\", MEM(i, REG_RDI), R2(REG_RAX));\n			asm_ins2(\"movw\", R2(REG_RAX), MEM(i, REG_RSI));\n			i += 2;", "			asm_ins2(\"movb\", MEM(i, REG_RDI), R1(REG_RAX));\n			asm_ins2(\"movb\", R1(REG_RAX), MEM(i, REG_RSI));\n			i += 1;")),
    ("v3", "C19", (E2I, "		(type_is_arithmetic(ee->data_type) || type_is_pointer(ee->data_type));", "		type_is_arithmetic(ee->data_type);")),
    ("v4", "C19", (E2I, "		evaluated_expression_discard(operand);\n", "")),
    ("v5", "C19", (IR, "	if (address->type == IR_ALLOC) {\n		return ir_new2(IR_LOAD,", "	if (address->type == IR_ALLOC || address->type == IR_CONSTANT) {\n		return ir_new2(IR_LOAD,")),
    ("v6", "C19", (E2I, "	if (!expr->assignment_pointer.postfix)\n		res = pointer_var;", "	if (!expr->assignment_pointer.postfix)\n		res = evaluated_expression_to_var(&pointer);")),
    ("v7", "C19 C16", (X64, "			data->fields[i].has_unit = bitfield_has_unit(data, i);", "			data->fields[i].has_unit = bitfield_has_unit(data, i) || i > 0;")),
    ("v8", "C19 C16", (X64, "			data->fields[i].has_unit = bitfield_has_unit(data, i);", "			data->fields[i].has_unit = bitfield_has_unit(data, i) && !i;")),
    ("v9", "C20", (E2I, "\"setjmp\", \"_setjmp\",", "\"setjmp\", \"_setjmp_\",")),
    ("v10", "C20", (E2I, "\"sigsetjmp\", \"__sigsetjmp\",", "\"sigsetjmp\",")),
    ("v11", "C20", (M2R, "	if (alloc->parent_function->function.calls_setjmp)\n		return;", "	if (alloc->parent_function->function.calls_setjmp && alloc->alloc.size != 8)\n		return;")),
    ("v12", "C20", (M2R, "	if (alloc->parent_function->function.calls_setjmp)\n		return;", "	if (alloc->parent_function->function.calls_setjmp && alloc->use_size > 3)\n		return;")),
    ("v13", "C21", (E2I, "		ir_copy_memory(address, ee.pointer, calculate_size(ee.data_type));", "		ir_copy_memory(address, ee.pointer, round_up_to_nearest(calculate_size(ee.data_type), 4));")),
    ("v14", "C21 C17", (S, "		ir_load_base_relative_address(call_stack, address, current_mem + 16 + c.shadow_space, size);", "		ir_load_base_relative_address(call_stack, address, current_mem + 16 + c.shadow_space, round_up_to_nearest(size, 8));")),
    ("v15", "C21 C16", (IR, "	ir_set_zero_ptr(ptr, calculate_size(type));", "	ir_set_zero_ptr(ptr, round_up_to_nearest(calculate_size(type), calculate_size(type) > 8 ? 4 : 1));")),
    ("v16", "C17", (S, "		current_mem += round_up_to_nearest(size, 8);\n		total_mem_needed += round_up_to_nearest(size, 8);", "		current_mem += round_up_to_nearest(size, 8);\n		total_mem_needed += size;")),
    ("v17", "C17", (CALL, "				classify_recursively(current, memb_type, lower - offset, upper - offset);\n			}\n		}\n	} break;\n\n	case TY_ARRAY", "				classify_recursively(current, memb_type, lower, upper);\n			}\n		}\n	} break;\n\n	case TY_ARRAY")),
    ("v18", "C17", (S, "				*reg_state = ir_set_reg(parts[i], *reg_state, sse_idx++, 1);", "				*reg_state = ir_set_reg(parts[i], *reg_state, MAX(i, sse_idx++), 1);")),
    ("v19", "C17", (S, "			ret_address_index = 0;\n\n			current_gp_reg = 1;", "			ret_address_index = 0;\n\n			current_gp_reg = n_args > 5 ? 0 : 1;")),
    ("v20", "C18", (MS, "	return size == 1 || size == 2 || size == 4 || size == 8;", "	return size >= 1 && size <= 8;")),
    ("v21", "C18", (MS, "			*reg_state = ir_set_reg(abi_data->ret_address, *reg_state, REG_RAX, 0);", "			;")),
    ("v22", "C18", (MS, "	int stack_sub = MAX(32, round_up_to_nearest(n * 8, 16));", "	int stack_sub = MAX(32, round_up_to_nearest((n - ret_in_address) * 8, 16));")),
    ("v23", "C18", (MS, "round_up_to_nearest(n * 8, 16)", "round_up_to_nearest((n - 3) * 8, 16)")),
    ("v24", "C18", (MS, "		abi_data.n_args = n_args + abi_data.returns_address;", "		abi_data.n_args = n_args;")),
    ("v25", "C15", (CG, "	change = allocation->allocate_call_stack.change;\n	asm_ins2(\"addq\", IMM(change), R8(REG_RSP));\n", "	change = allocation->allocate_call_stack.change;\n"), (CG, "asm_ins2(\"leaq\", MEM(ins->store_stack_relative_address.offset, REG_RSP), R8(REG_RSI));", "asm_ins2(\"leaq\", MEM(ins->store_stack_relative_address.offset + change, REG_RSP), R8(REG_RSI));"), (CG, "asm_ins2(\"leaq\", MEM(ins->store_stack_relative.offset, REG_RSP), R8(REG_RSI));", "asm_ins2(\"leaq\", MEM(ins->store_stack_relative.offset + change, REG_RSP), R8(REG_RSI));"), (CG, "		ins = ins->arguments[1];\n	}\n\n	return change;", "		ins = ins->arguments[1];\n	}\n\n	asm_ins2(\"addq\", IMM(change), R8(REG_RSP));\n	return change;")),
    ("v26", "C27", (CG, "		asm_ins1(\"jne\", IMML_ABS(tmp_label, 0));\n		asm_ins2(\"movq\", R8(REG_RSP), R8(REG_RAX));", "		if (vla_info.count < 3)\n			asm_ins1(\"jne\", IMML_ABS(tmp_label, 0));\n		asm_ins2(\"movq\", R8(REG_RSP), R8(REG_RAX));")),
    ("v27", "C27 C20", (CG, "		for (int i = ins->vla_alloc.dominance + 1; i < vla_info.count; i++)", "		for (int i = ins->vla_alloc.dominance + 1; i < vla_info.count - 1; i++)")),
    ("v28", "C07", (RO, "		buffer[i] = 0;\n", "		if (i < 64 || i < size - size % 8)\n			buffer[i] = 0;\n")),
    ("v29", "C19 C20 C16", (GCM, "		if (state->block)\n			ins->block = state->block;", "		if (state->block && state->type == IR_PHI)\n			ins->block = state->block;")),
    ("v30", "C16 C21", (REG, "	case 1:\n		asm_ins2(\"movzbl\", mem, R4(reg));", "	case 1:\n		asm_ins2(\"movl\", mem, R4(reg));\n		asm_ins2(\"andl\", IMM(255), R4(reg));")),
    ("v31", "C14", (LINK, "				if (object.symbols[j].name && object.symbols[j].global && object.symbols[j].section != -1) {", "				if (i != j && object.symbols[j].name && object.symbols[j].global && object.symbols[j].section > 0) {")),
    ("v32", "C14", (LINK, "				write_32(relocation_segment->data + segment_relative_pos, symbol_value + relocation->add);", "				write_32(relocation_segment->data + segment_relative_pos, symbol_value + (int8_t)relocation->add);")),
    ("v33", "C14", (LINK, "				int64_t relative = symbol_value - relocation_virtual_pos;", "				int16_t relative = symbol_value - relocation_virtual_pos;")),
    ("v34", "C15 C20", (M2R, "	case IR_SET_ZERO_PTR:\n		if (state->arguments[0] == alloc)\n			ret_value = ir_zero", "	case IR_SET_ZERO_PTR:\n		if (state->arguments[0]->type == IR_ALLOC && state->arguments[0]->alloc.size == alloc->alloc.size)\n			ret_value = ir_zero")),
    ("v35", "C17 C21", (CG, "			if (ins->size == 4) {\n				asm_ins2(\"movss\", XMM(ins->get_reg.register_index),", "			if (ins->size == 4 && !ins->get_reg.register_index) {\n				asm_ins2(\"movss\", XMM(ins->get_reg.register_index),")),
    ("v36", "C16 C21", (E2I, "	struct node *address = ir_allocate(calculate_size(expr->compound_literal.type), 0);\n	ir_init_ptr(", "	struct node *address = ir_allocate(MIN(calculate_size(expr->compound_literal.type), 64), 0);\n	ir_init_ptr(")),
    ("v37", "C15 C16", (CG, "	if (stack_alignment > 16) {", "	if (stack_alignment > 32) {")),
    ("v38", "C15", (CG, "	int stack_sub = round_up_to_nearest(perm_stack_count + max_temp_stack, 16);", "	int stack_sub = round_up_to_nearest(MAX(perm_stack_count + max_temp_stack - 128, 0), 16);")),
    ("v39", "C15", (CG, "			asm_ins2(\"movq\", MEM(-rbp_save_info.offset, REG_RBP), R8(REG_RBP));\n		}\n		asm_ins0(\"leave\");", "			asm_ins2(\"movq\", MEM(-rbp_save_info.offset, REG_RBP), R8(REG_RSP));\n			asm_ins2(\"movq\", MEM(0, REG_RSP), R8(REG_RBP));\n			asm_ins2(\"leaq\", MEM(8, REG_RSP), R8(REG_RSP));\n			asm_ins0(\"ret\");\n			return;\n		}\n		asm_ins0(\"leave\");")),
    ("v40", "C21 C16", (E2I, "	if (calculate_size(rhs->data_type) <= 8) { // If", "	if (calculate_size(rhs->data_type) <= 8 && lhs->type != EE_POINTER) { // If")),
]
