S, MS, CG, REG = "src/abi/sysv.c", "src/abi/microsoft.c", "src/codegen/codegen.c", "src/codegen/registers.c"
E2I, FP, IR, GCM, M2R = "src/parser/expression_to_ir.c", "src/parser/function_parser.c", "src/ir/ir.c", "src/ir/global_code_motion.c", "src/optimize/mem2reg.c"
CALL = "src/arch/calling.c"
M = [
    ("s1", "C17", (S, "max_gp_reg = 6, max_sse_reg = 8", "max_gp_reg = 6, max_sse_reg = 7")),
    ("s2", "C17", (S, "asm_ins2(\"leaq\", MEM(round_up_to_nearest(size, 8), REG_RAX), R8(REG_RDX));", "asm_ins2(\"leaq\", MEM(size, REG_RAX), R8(REG_RDX));")),
    ("s3", "C17", (S, "round_up_to_nearest(total_mem_needed, 16)", "round_up_to_nearest(total_mem_needed, 8)")),
    ("s4", "C17", (S, "abi_data.overflow_position = total_mem_needed + 16;", "abi_data.overflow_position = 16;")),
    ("s5", "C21 C17", (S, "parts[i] = ir_load_part_address(value_address, i * 8, MIN(size - i * 8, 8));", "parts[i] = ir_load_part_address(value_address, i * 8, 8);")),
    ("s6", "C17 C21", (S, "reg_to_memory(REG_RAX, MIN(size - i * 8, 8));", "reg_to_memory(REG_RAX, 8);")),
    ("s7", "C17", (S, "	if (value->type == EE_VOID)\n		goto unclobber;", "	if (value->type == EE_VOID)\n		return;"), ),
    ("s8", "C17", (S, ".rax = current_sse_reg,", ".rax = 0,")),
    ("s9", "C17", (S, "for (int i = 0; i < 8; i++)\n		asm_ins2(\"movsd\"", "for (int i = 0; i < 7; i++)\n		asm_ins2(\"movsd\"")),
    ("s10", "C17", (S, "gp_offset = current_gp_reg * 8;", "gp_offset = current_gp_reg * 8 - returns_address * 8;")),
    ("s11", "C17", (S, "asm_ins2(\"cmpl\", IMM(REG_SAVE_FP_OFFSET - 8 * num_gp), R4(REG_RAX));", "asm_ins2(\"cmpl\", IMM(REG_SAVE_FP_OFFSET), R4(REG_RAX));")),
    ("s12", "C17", (S, "ir_allocate_preamble(304)", "ir_allocate_preamble(168)")),
    ("s13", "C17 C21", (S, "arg_addresses[c.regs[i].merge_into], c.regs[i].merge_pos, c.regs[i].size);", "arg_addresses[c.regs[i].merge_into], c.regs[i].merge_pos, 8);")),
    ("s14", "C17 C21", (S, "reg_variables[i] = ir_get_reg(reg_source, c.regs[i].size,", "reg_variables[i] = ir_get_reg(reg_source, 8,")),
    ("s15", "C17", (S, "const int is_memory = classes[0] == CLASS_MEMORY ||\n			current_gp_reg + n_gp_regs > max_gp_reg ||\n			current_sse_reg + n_sse_regs > max_sse_reg;", "const int is_memory = classes[0] == CLASS_MEMORY ||\n			(n_gp_regs && current_gp_reg + n_gp_regs > max_gp_reg) ||\n			(n_sse_regs && !n_gp_regs && current_sse_reg + n_sse_regs > max_sse_reg);")),
    ("c1", "C17", (CALL, "if (a == CLASS_INTEGER || b == CLASS_INTEGER)\n		return CLASS_INTEGER;", "if (a == CLASS_INTEGER && b == CLASS_INTEGER)\n		return CLASS_INTEGER;")),
    ("c2", "C17", (CALL, "for (size_t i = 0; i < type->array.length; i++) {", "for (size_t i = 0; i < type->array.length && i < 4; i++) {")),
    ("m1", "C18", (MS, "	*reg_state = ir_set_reg(abi_data->rdi_store, *reg_state, REG_RDI, 0);\n", "")),
    ("m2", "C18", (MS, "MAX(32, round_up_to_nearest(n * 8, 16))", "MAX(0, round_up_to_nearest(n * 8, 16))")),
    ("m3", "C18", (MS, "codegen_incoming_address(abi_data->n_args * 8 + 16, REG_RAX);", "codegen_incoming_address(16, REG_RAX);")),
    ("m4", "C18", (MS, "round_up_to_nearest(n * 8, 16)", "round_up_to_nearest(n * 8, 8)")),
    ("m5", "C18", (MS, "scalar_to_reg(va_list, REG_RBX); // va", "scalar_to_reg(va_list, REG_RCX); // va"), (MS, "asm_ins2(\"movq\", MEM(0, REG_RBX), R8(REG_RAX));", "asm_ins2(\"movq\", MEM(0, REG_RCX), R8(REG_RAX));"), (MS, "asm_ins2(\"movq\", R8(REG_RDX), MEM(0, REG_RBX));", "asm_ins2(\"movq\", R8(REG_RDX), MEM(0, REG_RCX));")),
    ("g1", "C17 C18 C21", (CG, "			if (ins->size == 4) {\n				asm_ins2(\"movss\", XMM(ins->get_reg.register_index),", "			if (ins->size == 3) {\n				asm_ins2(\"movss\", XMM(ins->get_reg.register_index),")),
    ("g2", "C21", (CG, "		} else if (i + 4 <= len) {\n			asm_ins2(\"movl\", IMM(0), MEM(i, REG_RDI));\n			i += 4;", "		} else if (i + 3 <= len) {\n			asm_ins2(\"movl\", IMM(0), MEM(i, REG_RDI));\n			i += 4;")),
    ("g3", "C21", (CG, "		} else if (i + 4 <= len) {\n			asm_ins2(\"movl\", MEM(i, REG_RDI), R4(REG_RAX));\n			asm_ins2(\"movl\", R4(REG_RAX), MEM(i, REG_RSI));\n			i += 4;", "		} else if (i + 5 <= len) {\n			asm_ins2(\"movq\", MEM(i, REG_RDI), R8(REG_RAX));\n			asm_ins2(\"movq\", R8(REG_RAX), MEM(i, REG_RSI));\n			i += 8;")),
    ("g4", "C20 C15", (CG, "		for (int i = ins->vla_alloc.dominance + 1; i < vla_info.count; i++)", "		for (int i = ins->vla_alloc.dominance + 2; i < vla_info.count; i++)")),
    ("g5", "C15 C20", (CG, "	if (stack_alignment > 16) {", "	if (stack_alignment > 64) {")),
    ("g6", "C17 C21", (CG, "					if (remainder != 0)\n						perm_stack_count += ins->alloc.alignment - remainder;", "					if (remainder > 8)\n						perm_stack_count += ins->alloc.alignment - remainder;")),
    ("g7", "C15 C17", (CG, "		asm_ins2(\"andq\", IMM(-16), R8(REG_RSP));\n	} break;", "	} break;")),
    ("g8", "C15", (CG, "round_up_to_nearest(perm_stack_count + max_temp_stack, 16)", "round_up_to_nearest(perm_stack_count + max_temp_stack - 8, 16)")),
    ("g9", "C20 C13", (CG, "		asm_ins2(\"testq\", R8(REG_RAX), R8(REG_RAX));\n		asm_ins1(\"setne\", R1(REG_RAX));", "		asm_ins2(\"testq\", R4(REG_RAX), R4(REG_RAX));\n		asm_ins1(\"setne\", R1(REG_RAX));")),
    ("g10", "C17 C20 C13", (CG, "				asm_ins2(\"movswq\", R2(REG_RAX), R8(REG_RAX));\n			} else if (size_rhs == 4) {\n				asm_ins2(\"movslq\", R4(REG_RAX), R8(REG_RAX));\n			}\n		}", "				asm_ins2(\"movswq\", R2(REG_RAX), R8(REG_RAX));\n			}\n		}")),
    ("r1", "C21 C17", (REG, "	case 2:\n		asm_ins2(\"movzwl\", mem, R4(reg));", "	case 2:\n		asm_ins2(\"movl\", mem, R4(reg));")),
    ("r2", "C17 C21", (REG, "		} else if (i + 2 <= size) {\n			asm_ins2(\"movw\", R2(reg), mem);\n			msize = 2;\n		} else if (i + 1 <= size) {\n			asm_ins2(\"movb\", R1(reg), mem);\n			msize = 1;\n		}\n\n		i += msize;\n	}\n}\n\nvoid reg_to_memory", "		} else if (i + 1 <= size) {\n			asm_ins2(\"movw\", R2(reg), mem);\n			msize = 2;\n		}\n\n		i += msize;\n	}\n}\n\nvoid reg_to_memory")),
    ("r3", "C21 C17 C18", (REG, "struct operand mem = MEM(i, REG_RSI);\n		if (i + 8 <= size) {", "struct operand mem = MEM(i, REG_RSI);\n		if (i + 7 <= size) {")),
    ("d1", "C19 C20", (M2R, "				use->arguments[1] == alloc ||\n", "")),
    ("d2", "C20 C21 C13", (M2R, "			if (use->set_zero_ptr.size != size)\n				return;\n", "")),
    ("d3", "C20 C21 C17", (M2R, "			if (use->size != size)\n				return;\n", "")),
    ("e1", "C19", (E2I, "	expression_to_void(expr->args[0]);\n		ret = ", "	expression_evaluate(expr->args[0]);\n		ret = ")),
    ("e2", "C19", (E2I, "	if (is_scalar_in_memory(&rhs) || lhs.type == EE_BITFIELD_POINTER) {", "	if (lhs.type == EE_BITFIELD_POINTER) {")),
    ("e3", "C19 C20", (E2I, "	if (!expr->assignment_op.postfix)\n		res_var = value_after_assignment(&lhs, lhs_var);", "	if (!expr->assignment_op.postfix)\n		res_var = evaluated_expression_to_var(&lhs);")),
    ("e4", "C21 C17", (E2I, "if (calculate_size(rhs->data_type) <= 8) {", "if (calculate_size(rhs->data_type) <= 4) {")),
    ("e5", "C21 C17", (E2I, "		size = calculate_size(type_deref(expr->va_copy_.d->data_type));", "		size = 16;")),
    ("e6", "C20 C13", (E2I, "			argument = evaluated_expression_cast(&argument, signature->children[i + 1]);", "			;")),
]
