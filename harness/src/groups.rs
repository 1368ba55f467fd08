groups! {
    g_linalg: h_linalg [ harness_gcdx, harness_hnf22, harness_hnf23, harness_hnf32, harness_hnf33, harness_hnf_upper, harness_det, harness_det4,
        harness_solve22, harness_solve_complete, harness_solve_rect, harness_null, harness_inv2, harness_inv3, harness_hnf44, harness_solve33, harness_solve_over, harness_hnf_large, harness_inv_large, harness_gcdx_large ];
    g_rational: h_rational [ harness_rref22, harness_rref23, harness_rref32, harness_rref33, harness_qdet, harness_qdet4, harness_qsolve22, harness_qsolve_rect,
        harness_qnull, harness_qinv2, harness_qinv3, harness_qinv4, harness_qsolve33, harness_qmodel, harness_float, harness_qsolve_over, harness_qlarge ];
    g_matrix: h_matrix [ harness_mat_elementwise, harness_mat_product, harness_mat_shapes, harness_mat_eq, harness_mat_refuse, harness_mat_large ];
    g_geometry: h_geometry [ harness_affine, harness_affine_inverse, harness_is_identity, harness_coordmap, harness_to_basis, harness_scalar_product, harness_scalar_product_refuse, harness_scalar_product_refuse3, harness_mod_z, harness_vectors, harness_vectors_refuse ];
    g_modular: h_modular [ harness_modinv, harness_modinv_large, harness_modrref22, harness_modrref23, harness_modrref32, harness_modrref33, harness_modmatinv, harness_modmatinv_large, harness_modproducts, harness_padic1, harness_padic2, harness_padic3, harness_padic_limits, harness_padic_large ];
    g_partition: h_partition [ harness_part_unions, harness_part_classes, harness_part_deep, harness_part_history, harness_part_any, harness_part_forest, harness_part_large ];
    g_graph: h_graph [ harness_label2, harness_label3, harness_label_order, harness_edge, harness_graph_build2, harness_graph_build3, harness_graph_build4, harness_graph_order, harness_coordination2, harness_coordination3, harness_coordination_sym, harness_graph_large, harness_coordination_large ];
    g_place: h_place [ harness_placement2, harness_placement3, harness_placement4, harness_placement_padic, harness_stable, harness_stable3, harness_locally_stable, harness_second_order, harness_placement_lifted, harness_placement_large, harness_stable_large ];
    g_component: h_component [ harness_measures2, harness_measures_loops2, harness_measures3, harness_normalized2, harness_normalized3, harness_normalized4, harness_normalized_order, harness_measures_large, harness_normalized_large ];
    g_symm: h_symm [ harness_sym_loops2, harness_sym_parallel2, harness_sym_mixed2, harness_sym_three2, harness_sym_ladder2, harness_sym_loops3, harness_sym_bonds3, harness_sym_chains3, harness_sym_refuse,
        harness_sym_any_loops2, harness_sym_any_bonds2, harness_sym_any_mixed2, harness_sym_any_three2, harness_sym_any_loops3,
        harness_setting_plane, harness_setting_vertices, harness_setting_space, harness_setting_space_vertices, harness_sym_large, harness_sym_decorated, harness_setting_large ];
    g_minimal: h_minimal [ harness_min_cells2, harness_min_cells_setting2, harness_min_cells_shifted2, harness_min_cells3, harness_min_defect2, harness_min_any2, harness_min_ladder2, harness_min_ladder_cells2, harness_min_ladder_three, harness_min_large ];
    g_group: h_group [ harness_generate2, harness_group_large, harness_generate_far, harness_primitive2, harness_generate3, harness_primitive3, harness_spaces3, harness_group1, harness_spaces_any ];
    g_finder: h_finder [ harness_details1, harness_details2, harness_details3, harness_details3_any, harness_system2, harness_normalized_basis2 ];
    g_operator: h_operator [ harness_op_any, harness_op_chars, harness_op_terms, harness_op_sums, harness_op_long, harness_op_large, harness_op_change ];
    g_line: h_line [ harness_line_any, harness_line_long, harness_line_tokens, harness_line_many, harness_line_fraction, harness_line_number, harness_line_names, harness_line_limits ];
    g_blocks: h_blocks [ harness_blocks_lines, harness_blocks_large, harness_blocks_many, harness_blocks_any, harness_blocks_reads, harness_blocks_fails ];
    g_table: h_table [ harness_table_lines, harness_table_large, harness_table_many, harness_table_any, harness_table_unreadable, harness_table_show, harness_table_show_lookup, harness_table_lookup, harness_table_names ];
    g_history: h_history [ harness_history2, harness_history3 ];
    g_text: h_text [ harness_text_matrix, harness_text_vectors, harness_text_maps, harness_text_graph ];
    g_lattice: h_lattice [ harness_dirichlet3, harness_reduced3, harness_reduced3_setting, harness_reduced2, harness_reduced_line, harness_dirichlet_shift2, harness_dirichlet_shift3, harness_lattice2, harness_lattice3, harness_lattice3_two, harness_lattice_large, harness_reduced3_any, harness_reduced_skew2, harness_reduced_skew3 ];
}
