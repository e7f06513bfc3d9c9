NULLCALL (axl_babel_check_utf8_content, content, return show (axl_babel_check_utf8_content (NULL, 1, &f.size));, "0")
NULLCALL (axl_binary_stack_free, bstack, axl_binary_stack_free (NULL); return "void";, "void")
NULLCALL (axl_binary_stack_is_empty, bstack, return show (axl_binary_stack_is_empty (NULL));, "0")
NULLCALL (axl_binary_stack_peek, bstack, return show (axl_binary_stack_peek (NULL));, "0")
NULLCALL (axl_binary_stack_pop, bstack, return show (axl_binary_stack_pop (NULL));, "0")
NULLCALL (axl_binary_stack_push, bstack, axl_binary_stack_push (NULL, 1); return "void";, "void")
NULLCALL (axl_binary_stack_push_the_same, bstack, axl_binary_stack_push_the_same (NULL); return "void";, "void")
NULLCALL (axl_binary_stack_size, bstack, return show (axl_binary_stack_size (NULL));, "-1")
NULLCALL (axl_casecmp, string, return show (axl_casecmp (NULL, f.text));, "0")
NULLCALL (axl_casecmp, string2, return show (axl_casecmp (f.text, NULL));, "0")
NULLCALL (axl_cmp, string, return show (axl_cmp (NULL, f.text));, "0")
NULLCALL (axl_cmp, string2, return show (axl_cmp (f.text, NULL));, "0")
NULLCALL (axl_doc_add_pi_target, doc, axl_doc_add_pi_target (NULL, f.text, f.text); return "void";, "void")
NULLCALL (axl_doc_add_pi_target, target, axl_doc_add_pi_target (f.doc, NULL, f.text); return "void";, "void")
NULLCALL (axl_doc_are_equal, doc, return show (axl_doc_are_equal (NULL, f.doc2));, "0")
NULLCALL (axl_doc_are_equal, doc2, return show (axl_doc_are_equal (f.doc, NULL));, "0")
NULLCALL (axl_doc_are_equal_full, doc, return show (axl_doc_are_equal_full (NULL, f.doc2, 1, &f.error));, "0")
NULLCALL (axl_doc_are_equal_full, doc2, return show (axl_doc_are_equal_full (f.doc, NULL, 1, &f.error));, "0")
NULLCALL (axl_doc_are_equal_trimmed, doc, return show (axl_doc_are_equal_trimmed (NULL, f.doc2));, "0")
NULLCALL (axl_doc_are_equal_trimmed, doc2, return show (axl_doc_are_equal_trimmed (f.doc, NULL));, "0")
NULLCALL (axl_doc_dump, doc, return show (axl_doc_dump (NULL, &f.out, &f.size));, "0")
NULLCALL (axl_doc_dump_pretty, doc, return show (axl_doc_dump_pretty (NULL, &f.out, &f.size, 2));, "0")
NULLCALL (axl_doc_dump_pretty_to_file, doc, return show (axl_doc_dump_pretty_to_file (NULL, f.file, 2));, "0")
NULLCALL (axl_doc_dump_pretty_to_file, file_path, return show (axl_doc_dump_pretty_to_file (f.doc, NULL, 2));, "0")
NULLCALL (axl_doc_dump_to_file, doc, return show (axl_doc_dump_to_file (NULL, f.file));, "0")
NULLCALL (axl_doc_dump_to_file, file_path, return show (axl_doc_dump_to_file (f.doc, NULL));, "0")
NULLCALL (axl_doc_free, doc, axl_doc_free (NULL); return "void";, "void")
NULLCALL (axl_doc_get, doc, return show (axl_doc_get (NULL, "/root/a"));, "null")
NULLCALL (axl_doc_get, path_to, return show (axl_doc_get (f.doc, NULL));, "null")
NULLCALL (axl_doc_get_content_at, doc, return show (axl_doc_get_content_at (NULL, "/root/a", &f.size));, "null")
NULLCALL (axl_doc_get_content_at, path_to, return show (axl_doc_get_content_at (f.doc, NULL, &f.size));, "null")
NULLCALL (axl_doc_get_encoding, doc, return show (axl_doc_get_encoding (NULL));, "null")
NULLCALL (axl_doc_get_flat_size, doc, return show (axl_doc_get_flat_size (NULL));, "-1")
NULLCALL (axl_doc_get_flat_size_pretty, doc, return show (axl_doc_get_flat_size_pretty (NULL, 2));, "-1")
NULLCALL (axl_doc_get_list, doc, return show (axl_doc_get_list (NULL, "/root/a"));, "null")
NULLCALL (axl_doc_get_list, path_to, return show (axl_doc_get_list (f.doc, NULL));, "null")
NULLCALL (axl_doc_get_pi_target_content, doc, return show (axl_doc_get_pi_target_content (NULL, f.text));, "null")
NULLCALL (axl_doc_get_pi_target_content, pi_target, return show (axl_doc_get_pi_target_content (f.doc, NULL));, "null")
NULLCALL (axl_doc_get_pi_target_list, doc, return show (axl_doc_get_pi_target_list (NULL));, "null")
NULLCALL (axl_doc_get_root, doc, return show (axl_doc_get_root (NULL));, "null")
NULLCALL (axl_doc_get_standalone, doc, return show (axl_doc_get_standalone (NULL));, "0")
NULLCALL (axl_doc_has_pi_target, doc, return show (axl_doc_has_pi_target (NULL, f.text));, "0")
NULLCALL (axl_doc_has_pi_target, pi_target, return show (axl_doc_has_pi_target (f.doc, NULL));, "0")
NULLCALL (axl_doc_iterate, doc, return show (axl_doc_iterate (NULL, DEEP_ITERATION, nv1, (axlPointer) f.text));, "0")
NULLCALL (axl_doc_iterate_full, doc, return show (axl_doc_iterate_full (NULL, DEEP_ITERATION, nv2, (axlPointer) f.text, (axlPointer) f.text));, "0")
NULLCALL (axl_doc_iterate_full_from, doc, return show (axl_doc_iterate_full_from (NULL, f.node, DEEP_ITERATION, nv2, (axlPointer) f.text, (axlPointer) f.text));, "0")
NULLCALL (axl_doc_iterate_full_from, starting_from, return show (axl_doc_iterate_full_from (f.doc, NULL, DEEP_ITERATION, nv2, (axlPointer) f.text, (axlPointer) f.text));, "0")
NULLCALL (axl_doc_parse, entity, return show (axl_doc_parse (NULL, 1, &f.error));, "null")
NULLCALL (axl_doc_parse_from_file, file_path, return show (axl_doc_parse_from_file (NULL, &f.error));, "null")
NULLCALL (axl_doc_set_root, doc, axl_doc_set_root (NULL, f.node); return "void";, "void")
NULLCALL (axl_dtd_are_equal, dtd, return show (axl_dtd_are_equal (NULL, f.dtd));, "0")
NULLCALL (axl_dtd_are_equal, dtd2, return show (axl_dtd_are_equal (f.dtd, NULL));, "0")
NULLCALL (axl_dtd_element_is_toplevel, dtd, return show (axl_dtd_element_is_toplevel (NULL, f.element));, "0")
NULLCALL (axl_dtd_element_is_toplevel, element, return show (axl_dtd_element_is_toplevel (f.dtd, NULL));, "0")
NULLCALL (axl_dtd_entity_exists, dtd, return show (axl_dtd_entity_exists (NULL, f.text, GENERAL_ENTITY));, "0")
NULLCALL (axl_dtd_entity_exists, name, return show (axl_dtd_entity_exists (f.dtd, NULL, GENERAL_ENTITY));, "0")
NULLCALL (axl_dtd_entity_value, dtd, return show (axl_dtd_entity_value (NULL, f.text, GENERAL_ENTITY));, "null")
NULLCALL (axl_dtd_entity_value, name, return show (axl_dtd_entity_value (f.dtd, NULL, GENERAL_ENTITY));, "null")
NULLCALL (axl_dtd_free, dtd, axl_dtd_free (NULL); return "void";, "void")
NULLCALL (axl_dtd_get_attr, dtd, return show (axl_dtd_get_attr (NULL, f.text));, "null")
NULLCALL (axl_dtd_get_attr, nodeName, return show (axl_dtd_get_attr (f.dtd, NULL));, "null")
NULLCALL (axl_dtd_get_attr_contraints, dtd, return show (axl_dtd_get_attr_contraints (NULL, f.text));, "-1")
NULLCALL (axl_dtd_get_attr_contraints, nodeName, return show (axl_dtd_get_attr_contraints (f.dtd, NULL));, "-1")
NULLCALL (axl_dtd_get_element, dtd, return show (axl_dtd_get_element (NULL, f.text));, "null")
NULLCALL (axl_dtd_get_element, name, return show (axl_dtd_get_element (f.dtd, NULL));, "null")
NULLCALL (axl_dtd_get_element_name, element, return show (axl_dtd_get_element_name (NULL));, "null")
NULLCALL (axl_dtd_get_element_type, element, return show (axl_dtd_get_element_type (NULL));, "0")
NULLCALL (axl_dtd_get_item_list, element, return show (axl_dtd_get_item_list (NULL));, "null")
NULLCALL (axl_dtd_get_root, dtd, return show (axl_dtd_get_root (NULL));, "null")
NULLCALL (axl_dtd_item_list_count, itemList, return show (axl_dtd_item_list_count (NULL));, "-1")
NULLCALL (axl_dtd_item_list_get_node, itemList, return show (axl_dtd_item_list_get_node (NULL, 1));, "null")
NULLCALL (axl_dtd_item_list_repeat, itemList, return show (axl_dtd_item_list_repeat (NULL));, "0")
NULLCALL (axl_dtd_item_list_type, itemList, return show (axl_dtd_item_list_type (NULL));, "-1")
NULLCALL (axl_dtd_item_node_get_list, node, return show (axl_dtd_item_node_get_list (NULL));, "null")
NULLCALL (axl_dtd_item_node_get_repeat, node, return show (axl_dtd_item_node_get_repeat (NULL));, "0")
NULLCALL (axl_dtd_item_node_get_value, node, return show (axl_dtd_item_node_get_value (NULL));, "null")
NULLCALL (axl_dtd_parse, entity, return show (axl_dtd_parse (NULL, 1, &f.error));, "null")
NULLCALL (axl_dtd_parse_from_file, file_path, return show (axl_dtd_parse_from_file (NULL, &f.error));, "null")
NULLCALL (axl_dtd_validate, doc, return show (axl_dtd_validate (NULL, f.dtd, &f.error));, "0")
NULLCALL (axl_dtd_validate, dtd, return show (axl_dtd_validate (f.doc, NULL, &f.error));, "0")
NULLCALL (axl_error_free, _error, axl_error_free (NULL); return "void";, "void")
NULLCALL (axl_error_get_code, _error, return show (axl_error_get_code (NULL));, "-1")
NULLCALL (axl_error_was_ok, _error, return show (axl_error_was_ok (NULL));, "1")
NULLCALL (axl_hash_copy, hash, return show (axl_hash_copy (NULL, NULL, NULL));, "null")
NULLCALL (axl_hash_copy_full, hash, return show (axl_hash_copy_full (NULL, NULL, NULL, NULL, NULL));, "null")
NULLCALL (axl_hash_cursor_first, cursor, axl_hash_cursor_first (NULL); return "void";, "void")
NULLCALL (axl_hash_cursor_free, cursor, axl_hash_cursor_free (NULL); return "void";, "void")
NULLCALL (axl_hash_cursor_get_key, cursor, return show (axl_hash_cursor_get_key (NULL));, "null")
NULLCALL (axl_hash_cursor_get_value, cursor, return show (axl_hash_cursor_get_value (NULL));, "null")
NULLCALL (axl_hash_cursor_has_item, cursor, return show (axl_hash_cursor_has_item (NULL));, "0")
NULLCALL (axl_hash_cursor_has_next, cursor, return show (axl_hash_cursor_has_next (NULL));, "0")
NULLCALL (axl_hash_cursor_hash, cursor, return show (axl_hash_cursor_hash (NULL));, "null")
NULLCALL (axl_hash_cursor_last, cursor, axl_hash_cursor_last (NULL); return "void";, "void")
NULLCALL (axl_hash_cursor_new, hash, return show (axl_hash_cursor_new (NULL));, "null")
NULLCALL (axl_hash_cursor_next, cursor, axl_hash_cursor_next (NULL); return "void";, "void")
NULLCALL (axl_hash_cursor_remove, cursor, axl_hash_cursor_remove (NULL); return "void";, "void")
NULLCALL (axl_hash_exists, hash, return show (axl_hash_exists (NULL, (axlPointer) f.text));, "0")
NULLCALL (axl_hash_foreach, hash, axl_hash_foreach (NULL, nh1, (axlPointer) f.text); return "void";, "void")
NULLCALL (axl_hash_free, hash, axl_hash_free (NULL); return "void";, "void")
NULLCALL (axl_hash_get, hash, return show (axl_hash_get (NULL, (axlPointer) f.text));, "null")
NULLCALL (axl_hash_insert, hash, axl_hash_insert (NULL, (axlPointer) f.text, (axlPointer) f.text); return "void";, "void")
NULLCALL (axl_hash_insert_full, hash, axl_hash_insert_full (NULL, (axlPointer) f.text, NULL, (axlPointer) f.text, NULL); return "void";, "void")
NULLCALL (axl_hash_items, hash, return show (axl_hash_items (NULL));, "-1")
NULLCALL (axl_hash_remove, hash, return show (axl_hash_remove (NULL, (axlPointer) f.text));, "0")
NULLCALL (axl_item_are_equal, item, return show (axl_item_are_equal (NULL, f.other_item, 1));, "0")
NULLCALL (axl_item_are_equal, item2, return show (axl_item_are_equal (f.item, NULL, 1));, "0")
NULLCALL (axl_item_are_equal_full, item, return show (axl_item_are_equal_full (NULL, f.other_item, 1, &f.error));, "0")
NULLCALL (axl_item_are_equal_full, item2, return show (axl_item_are_equal_full (f.item, NULL, 1, &f.error));, "0")
NULLCALL (axl_item_copy, item, return show (axl_item_copy (NULL, f.node));, "null")
NULLCALL (axl_item_free, item, axl_item_free (NULL, 1); return "void";, "void")
NULLCALL (axl_item_get_content, item, return show (axl_item_get_content (NULL, &f.size));, "null")
NULLCALL (axl_item_get_data, item, return show (axl_item_get_data (NULL));, "null")
NULLCALL (axl_item_get_doc, item, return show (axl_item_get_doc (NULL));, "null")
NULLCALL (axl_item_get_first_child, node, return show (axl_item_get_first_child (NULL));, "null")
NULLCALL (axl_item_get_last_child, node, return show (axl_item_get_last_child (NULL));, "null")
NULLCALL (axl_item_get_next, item, return show (axl_item_get_next (NULL));, "null")
NULLCALL (axl_item_get_parent, item, return show (axl_item_get_parent (NULL));, "null")
NULLCALL (axl_item_get_previous, item, return show (axl_item_get_previous (NULL));, "null")
NULLCALL (axl_item_node_holder, node, return show (axl_item_node_holder (NULL));, "null")
NULLCALL (axl_item_node_next, node, return show (axl_item_node_next (NULL));, "null")
NULLCALL (axl_item_node_previous, node, return show (axl_item_node_previous (NULL));, "null")
NULLCALL (axl_item_remove, item, axl_item_remove (NULL, 1); return "void";, "void")
NULLCALL (axl_item_replace, item, axl_item_replace (NULL, f.other_item, 1); return "void";, "void")
NULLCALL (axl_item_replace, new_item, axl_item_replace (f.item, NULL, 1); return "void";, "void")
NULLCALL (axl_item_set_child, parent, axl_item_set_child (NULL, ITEM_CONTENT, (axlPointer) f.text); return "void";, "void")
NULLCALL (axl_item_set_child_ref, parent, axl_item_set_child_ref (NULL, f.item); return "void";, "void")
NULLCALL (axl_item_set_child_ref, item, axl_item_set_child_ref (f.node, NULL); return "void";, "void")
NULLCALL (axl_list_add, list, axl_list_add (NULL, (axlPointer) f.text); return "void";, "void")
NULLCALL (axl_list_add_at, list, axl_list_add_at (NULL, (axlPointer) f.text, 1); return "void";, "void")
NULLCALL (axl_list_append, list, axl_list_append (NULL, (axlPointer) f.text); return "void";, "void")
NULLCALL (axl_list_copy, list, return show (axl_list_copy (NULL, NULL));, "null")
NULLCALL (axl_list_cursor_first, cursor, axl_list_cursor_first (NULL); return "void";, "void")
NULLCALL (axl_list_cursor_free, cursor, axl_list_cursor_free (NULL); return "void";, "void")
NULLCALL (axl_list_cursor_get, cursor, return show (axl_list_cursor_get (NULL));, "null")
NULLCALL (axl_list_cursor_has_item, cursor, return show (axl_list_cursor_has_item (NULL));, "0")
NULLCALL (axl_list_cursor_has_next, cursor, return show (axl_list_cursor_has_next (NULL));, "0")
NULLCALL (axl_list_cursor_has_previous, cursor, return show (axl_list_cursor_has_previous (NULL));, "0")
NULLCALL (axl_list_cursor_last, cursor, axl_list_cursor_last (NULL); return "void";, "void")
NULLCALL (axl_list_cursor_list, cursor, return show (axl_list_cursor_list (NULL));, "null")
NULLCALL (axl_list_cursor_new, list, return show (axl_list_cursor_new (NULL));, "null")
NULLCALL (axl_list_cursor_next, cursor, axl_list_cursor_next (NULL); return "void";, "void")
NULLCALL (axl_list_cursor_previous, cursor, axl_list_cursor_previous (NULL); return "void";, "void")
NULLCALL (axl_list_cursor_remove, cursor, axl_list_cursor_remove (NULL); return "void";, "void")
NULLCALL (axl_list_cursor_unlink, cursor, axl_list_cursor_unlink (NULL); return "void";, "void")
NULLCALL (axl_list_exists, list, return show (axl_list_exists (NULL, (axlPointer) f.text));, "0")
NULLCALL (axl_list_exists_at, list, return show (axl_list_exists_at (NULL, (axlPointer) f.text, 1));, "0")
NULLCALL (axl_list_free, list, axl_list_free (NULL); return "void";, "void")
NULLCALL (axl_list_get_first, list, return show (axl_list_get_first (NULL));, "null")
NULLCALL (axl_list_get_last, list, return show (axl_list_get_last (NULL));, "null")
NULLCALL (axl_list_get_nth, list, return show (axl_list_get_nth (NULL, 1));, "null")
NULLCALL (axl_list_is_empty, list, return show (axl_list_is_empty (NULL));, "0")
NULLCALL (axl_list_length, list, return show (axl_list_length (NULL));, "-1")
NULLCALL (axl_list_lookup, list, return show (axl_list_lookup (NULL, nl, (axlPointer) f.text));, "null")
NULLCALL (axl_list_prepend, list, axl_list_prepend (NULL, (axlPointer) f.text); return "void";, "void")
NULLCALL (axl_list_remove, list, axl_list_remove (NULL, (axlPointer) f.text); return "void";, "void")
NULLCALL (axl_list_remove_at, list, axl_list_remove_at (NULL, 1); return "void";, "void")
NULLCALL (axl_list_remove_first, list, axl_list_remove_first (NULL); return "void";, "void")
NULLCALL (axl_list_remove_last, list, axl_list_remove_last (NULL); return "void";, "void")
NULLCALL (axl_list_remove_ptr, list, axl_list_remove_ptr (NULL, (axlPointer) f.text); return "void";, "void")
NULLCALL (axl_list_set_destroy_func, list, axl_list_set_destroy_func (NULL, NULL); return "void";, "void")
NULLCALL (axl_list_unlink, list, axl_list_unlink (NULL, (axlPointer) f.text); return "void";, "void")
NULLCALL (axl_list_unlink_at, list, axl_list_unlink_at (NULL, 1); return "void";, "void")
NULLCALL (axl_list_unlink_first, list, axl_list_unlink_first (NULL); return "void";, "void")
NULLCALL (axl_list_unlink_last, list, axl_list_unlink_last (NULL); return "void";, "void")
NULLCALL (axl_list_unlink_ptr, list, axl_list_unlink_ptr (NULL, (axlPointer) f.text); return "void";, "void")
NULLCALL (axl_node_add_pi_target, node, axl_node_add_pi_target (NULL, f.text, f.text); return "void";, "void")
NULLCALL (axl_node_add_pi_target, target, axl_node_add_pi_target (f.node, NULL, f.text); return "void";, "void")
NULLCALL (axl_node_annotate_data, node, axl_node_annotate_data (NULL, f.text, (axlPointer) f.text); return "void";, "void")
NULLCALL (axl_node_annotate_data, key, axl_node_annotate_data (f.node, NULL, (axlPointer) f.text); return "void";, "void")
NULLCALL (axl_node_annotate_data_full, node, axl_node_annotate_data_full (NULL, f.text, NULL, (axlPointer) f.text, NULL); return "void";, "void")
NULLCALL (axl_node_annotate_data_full, key, axl_node_annotate_data_full (f.node, NULL, NULL, (axlPointer) f.text, NULL); return "void";, "void")
NULLCALL (axl_node_annotate_double, node, axl_node_annotate_double (NULL, f.text, 1); return "void";, "void")
NULLCALL (axl_node_annotate_double, key, axl_node_annotate_double (f.node, NULL, 1); return "void";, "void")
NULLCALL (axl_node_annotate_get, node, return show (axl_node_annotate_get (NULL, f.text, 1));, "null")
NULLCALL (axl_node_annotate_get, key, return show (axl_node_annotate_get (f.node, NULL, 1));, "null")
NULLCALL (axl_node_annotate_get_double, node, return show (axl_node_annotate_get_double (NULL, f.text, 1));, "0")
NULLCALL (axl_node_annotate_get_double, key, return show (axl_node_annotate_get_double (f.node, NULL, 1));, "0")
NULLCALL (axl_node_annotate_get_int, node, return show (axl_node_annotate_get_int (NULL, f.text, 1));, "0")
NULLCALL (axl_node_annotate_get_int, key, return show (axl_node_annotate_get_int (f.node, NULL, 1));, "0")
NULLCALL (axl_node_annotate_get_string, node, return show (axl_node_annotate_get_string (NULL, f.text, 1));, "null")
NULLCALL (axl_node_annotate_get_string, key, return show (axl_node_annotate_get_string (f.node, NULL, 1));, "null")
NULLCALL (axl_node_annotate_int, node, axl_node_annotate_int (NULL, f.text, 1); return "void";, "void")
NULLCALL (axl_node_annotate_int, key, axl_node_annotate_int (f.node, NULL, 1); return "void";, "void")
NULLCALL (axl_node_annotate_string, node, axl_node_annotate_string (NULL, f.text, f.text); return "void";, "void")
NULLCALL (axl_node_annotate_string, key, axl_node_annotate_string (f.node, NULL, f.text); return "void";, "void")
NULLCALL (axl_node_annotate_string, string_value, axl_node_annotate_string (f.node, f.text, NULL); return "void";, "void")
NULLCALL (axl_node_are_equal, node, return show (axl_node_are_equal (NULL, f.other));, "0")
NULLCALL (axl_node_are_equal, node2, return show (axl_node_are_equal (f.node, NULL));, "0")
NULLCALL (axl_node_are_equal_full, node, return show (axl_node_are_equal_full (NULL, f.other, &f.error));, "0")
NULLCALL (axl_node_are_equal_full, node2, return show (axl_node_are_equal_full (f.node, NULL, &f.error));, "0")
NULLCALL (axl_node_attr_cursor_first, cursor, axl_node_attr_cursor_first (NULL); return "void";, "void")
NULLCALL (axl_node_attr_cursor_free, cursor, axl_node_attr_cursor_free (NULL); return "void";, "void")
NULLCALL (axl_node_attr_cursor_get_key, cursor, return show (axl_node_attr_cursor_get_key (NULL));, "null")
NULLCALL (axl_node_attr_cursor_get_value, cursor, return show (axl_node_attr_cursor_get_value (NULL));, "null")
NULLCALL (axl_node_attr_cursor_has_item, cursor, return show (axl_node_attr_cursor_has_item (NULL));, "0")
NULLCALL (axl_node_attr_cursor_has_next, cursor, return show (axl_node_attr_cursor_has_next (NULL));, "0")
NULLCALL (axl_node_attr_cursor_new, node, return show (axl_node_attr_cursor_new (NULL));, "null")
NULLCALL (axl_node_attr_cursor_next, cursor, axl_node_attr_cursor_next (NULL); return "void";, "void")
NULLCALL (axl_node_content_copy_and_escape, content, return show (axl_node_content_copy_and_escape (NULL, 1, 0));, "null")
NULLCALL (axl_node_content_copy_and_escape_cdata, content, return show (axl_node_content_copy_and_escape_cdata (NULL, 1, 0));, "null")
NULLCALL (axl_node_content_translate_defaults, content, return show (axl_node_content_translate_defaults (NULL, &f.size));, "null")
NULLCALL (axl_node_copy, node, return show (axl_node_copy (NULL, 1, 1));, "null")
NULLCALL (axl_node_deattach, node, axl_node_deattach (NULL); return "void";, "void")
NULLCALL (axl_node_dump, node, return show (axl_node_dump (NULL, &f.out, &f.size));, "0")
NULLCALL (axl_node_dump_pretty, node, return show (axl_node_dump_pretty (NULL, &f.out, &f.size, 2));, "0")
NULLCALL (axl_node_dump_pretty_to_file, node, return show (axl_node_dump_pretty_to_file (NULL, f.file, 2));, "0")
NULLCALL (axl_node_dump_pretty_to_file, file_path, return show (axl_node_dump_pretty_to_file (f.node, NULL, 2));, "0")
NULLCALL (axl_node_dump_to_file, node, return show (axl_node_dump_to_file (NULL, f.file));, "0")
NULLCALL (axl_node_dump_to_file, file_path, return show (axl_node_dump_to_file (f.node, NULL));, "0")
NULLCALL (axl_node_find_called, parent, return show (axl_node_find_called (NULL, f.text));, "null")
NULLCALL (axl_node_find_called, name, return show (axl_node_find_called (f.node, NULL));, "null")
NULLCALL (axl_node_free, node, axl_node_free (NULL); return "void";, "void")
NULLCALL (axl_node_free_full, node, axl_node_free_full (NULL, 1); return "void";, "void")
NULLCALL (axl_node_get_attribute_value, node, return show (axl_node_get_attribute_value (NULL, f.text));, "null")
NULLCALL (axl_node_get_attribute_value, attribute, return show (axl_node_get_attribute_value (f.node, NULL));, "null")
NULLCALL (axl_node_get_attribute_value_copy, node, return show (axl_node_get_attribute_value_copy (NULL, f.text));, "null")
NULLCALL (axl_node_get_attribute_value_copy, attribute, return show (axl_node_get_attribute_value_copy (f.node, NULL));, "null")
NULLCALL (axl_node_get_attribute_value_trans, node, return show (axl_node_get_attribute_value_trans (NULL, f.text));, "null")
NULLCALL (axl_node_get_attribute_value_trans, attribute, return show (axl_node_get_attribute_value_trans (f.node, NULL));, "null")
NULLCALL (axl_node_get_attribute_value_trimmed, node, return show (axl_node_get_attribute_value_trimmed (NULL, f.text));, "null")
NULLCALL (axl_node_get_attribute_value_trimmed, attribute, return show (axl_node_get_attribute_value_trimmed (f.node, NULL));, "null")
NULLCALL (axl_node_get_child_called, parent, return show (axl_node_get_child_called (NULL, f.text));, "null")
NULLCALL (axl_node_get_child_called, name, return show (axl_node_get_child_called (f.node, NULL));, "null")
NULLCALL (axl_node_get_child_nth, parent, return show (axl_node_get_child_nth (NULL, 1));, "null")
NULLCALL (axl_node_get_child_num, parent, return show (axl_node_get_child_num (NULL));, "-1")
NULLCALL (axl_node_get_childs, node, return show (axl_node_get_childs (NULL));, "null")
NULLCALL (axl_node_get_content, node, return show (axl_node_get_content (NULL, &f.size));, "null")
NULLCALL (axl_node_get_content_trans, node, return show (axl_node_get_content_trans (NULL, &f.size));, "null")
NULLCALL (axl_node_get_content_trim, node, return show (axl_node_get_content_trim (NULL, &f.size));, "null")
NULLCALL (axl_node_get_doc, node, return show (axl_node_get_doc (NULL));, "null")
NULLCALL (axl_node_get_first_child, node, return show (axl_node_get_first_child (NULL));, "null")
NULLCALL (axl_node_get_flat_size, node, return show (axl_node_get_flat_size (NULL, 1, 0, 2));, "-1")
NULLCALL (axl_node_get_last_child, node, return show (axl_node_get_last_child (NULL));, "null")
NULLCALL (axl_node_get_name, node, return show (axl_node_get_name (NULL));, "null")
NULLCALL (axl_node_get_next, node, return show (axl_node_get_next (NULL));, "null")
NULLCALL (axl_node_get_next_called, node, return show (axl_node_get_next_called (NULL, f.text));, "null")
NULLCALL (axl_node_get_next_called, name, return show (axl_node_get_next_called (f.node, NULL));, "null")
NULLCALL (axl_node_get_parent, node, return show (axl_node_get_parent (NULL));, "null")
NULLCALL (axl_node_get_pi_target_content, node, return show (axl_node_get_pi_target_content (NULL, f.text));, "null")
NULLCALL (axl_node_get_pi_target_content, pi_target, return show (axl_node_get_pi_target_content (f.node, NULL));, "null")
NULLCALL (axl_node_get_pi_target_list, node, return show (axl_node_get_pi_target_list (NULL));, "null")
NULLCALL (axl_node_get_previous, node, return show (axl_node_get_previous (NULL));, "null")
NULLCALL (axl_node_get_previous_called, node, return show (axl_node_get_previous_called (NULL, f.text));, "null")
NULLCALL (axl_node_get_previous_called, name, return show (axl_node_get_previous_called (f.node, NULL));, "null")
NULLCALL (axl_node_has_attribute, node, return show (axl_node_has_attribute (NULL, f.text));, "0")
NULLCALL (axl_node_has_attribute, attribute, return show (axl_node_has_attribute (f.node, NULL));, "0")
NULLCALL (axl_node_has_attribute_value, node, return show (axl_node_has_attribute_value (NULL, f.text, f.text));, "0")
NULLCALL (axl_node_has_attribute_value, attribute, return show (axl_node_has_attribute_value (f.node, NULL, f.text));, "0")
NULLCALL (axl_node_has_attribute_value, value, return show (axl_node_has_attribute_value (f.node, f.text, NULL));, "0")
NULLCALL (axl_node_has_attributes, node, return show (axl_node_has_attributes (NULL));, "0")
NULLCALL (axl_node_has_invalid_chars, content, return show (axl_node_has_invalid_chars (NULL, 1, &f.size));, "0")
NULLCALL (axl_node_has_invalid_chars_cdata, content, return show (axl_node_has_invalid_chars_cdata (NULL, 1, &f.size));, "0")
NULLCALL (axl_node_has_pi_target, node, return show (axl_node_has_pi_target (NULL, f.text));, "0")
NULLCALL (axl_node_has_pi_target, pi_target, return show (axl_node_has_pi_target (f.node, NULL));, "0")
NULLCALL (axl_node_have_childs, node, return show (axl_node_have_childs (NULL));, "0")
NULLCALL (axl_node_is_empty, node, return show (axl_node_is_empty (NULL));, "0")
NULLCALL (axl_node_num_attributes, node, return show (axl_node_num_attributes (NULL));, "-1")
NULLCALL (axl_node_remove, node, axl_node_remove (NULL, 1); return "void";, "void")
NULLCALL (axl_node_remove_attribute, node, axl_node_remove_attribute (NULL, f.text); return "void";, "void")
NULLCALL (axl_node_remove_attribute, attribute, axl_node_remove_attribute (f.node, NULL); return "void";, "void")
NULLCALL (axl_node_replace, node, axl_node_replace (NULL, f.other, 1); return "void";, "void")
NULLCALL (axl_node_replace, new_node, axl_node_replace (f.node, NULL, 1); return "void";, "void")
NULLCALL (axl_node_set_attribute, node, axl_node_set_attribute (NULL, f.text, f.text); return "void";, "void")
NULLCALL (axl_node_set_attribute, attribute, axl_node_set_attribute (f.node, NULL, f.text); return "void";, "void")
NULLCALL (axl_node_set_attribute, value, axl_node_set_attribute (f.node, f.text, NULL); return "void";, "void")
NULLCALL (axl_node_set_attribute_ref, node, axl_node_set_attribute_ref (NULL, f.text, f.text); return "void";, "void")
NULLCALL (axl_node_set_attribute_ref, attribute, axl_node_set_attribute_ref (f.node, NULL, f.text); return "void";, "void")
NULLCALL (axl_node_set_attribute_ref, value, axl_node_set_attribute_ref (f.node, f.text, NULL); return "void";, "void")
NULLCALL (axl_node_set_cdata_content, node, axl_node_set_cdata_content (NULL, f.text, 1); return "void";, "void")
NULLCALL (axl_node_set_cdata_content, content, axl_node_set_cdata_content (f.node, NULL, 1); return "void";, "void")
NULLCALL (axl_node_set_child, parent, axl_node_set_child (NULL, f.other); return "void";, "void")
NULLCALL (axl_node_set_child, child, axl_node_set_child (f.node, NULL); return "void";, "void")
NULLCALL (axl_node_set_comment, node, axl_node_set_comment (NULL, f.text, 1); return "void";, "void")
NULLCALL (axl_node_set_comment, comment, axl_node_set_comment (f.node, NULL, 1); return "void";, "void")
NULLCALL (axl_node_set_content, node, axl_node_set_content (NULL, f.text, 1); return "void";, "void")
NULLCALL (axl_node_set_content, content, axl_node_set_content (f.node, NULL, 1); return "void";, "void")
NULLCALL (axl_node_set_content_ref, node, axl_node_set_content_ref (NULL, f.text, 1); return "void";, "void")
NULLCALL (axl_node_set_content_ref, content, axl_node_set_content_ref (f.node, NULL, 1); return "void";, "void")
NULLCALL (axl_node_set_is_empty, node, axl_node_set_is_empty (NULL, 1); return "void";, "void")
NULLCALL (axl_ns_doc_check_default, node, return show (axl_ns_doc_check_default (NULL, f.text));, "0")
NULLCALL (axl_ns_doc_check_default, ns, return show (axl_ns_doc_check_default (f.node, NULL));, "0")
NULLCALL (axl_ns_doc_node_check, node, return show (axl_ns_doc_node_check (NULL, f.text, f.text));, "0")
NULLCALL (axl_ns_doc_node_check, ns_prefix, return show (axl_ns_doc_node_check (f.node, NULL, f.text));, "0")
NULLCALL (axl_ns_doc_node_check, ns, return show (axl_ns_doc_node_check (f.node, f.text, NULL));, "0")
NULLCALL (axl_ns_doc_validate, doc, return show (axl_ns_doc_validate (NULL, &f.error));, "0")
NULLCALL (axl_ns_node_cmp, node, return show (axl_ns_node_cmp (NULL, f.text, f.text));, "0")
NULLCALL (axl_ns_node_cmp, ns, return show (axl_ns_node_cmp (f.node, NULL, f.text));, "0")
NULLCALL (axl_ns_node_cmp, name, return show (axl_ns_node_cmp (f.node, f.text, NULL));, "0")
NULLCALL (axl_ns_node_find_called, parent, return show (axl_ns_node_find_called (NULL, f.text, f.text));, "null")
NULLCALL (axl_ns_node_find_called, ns, return show (axl_ns_node_find_called (f.node, NULL, f.text));, "null")
NULLCALL (axl_ns_node_find_called, name, return show (axl_ns_node_find_called (f.node, f.text, NULL));, "null")
NULLCALL (axl_ns_node_get_child_called, parent, return show (axl_ns_node_get_child_called (NULL, f.text, f.text));, "null")
NULLCALL (axl_ns_node_get_child_called, ns, return show (axl_ns_node_get_child_called (f.node, NULL, f.text));, "null")
NULLCALL (axl_ns_node_get_child_called, name, return show (axl_ns_node_get_child_called (f.node, f.text, NULL));, "null")
NULLCALL (axl_ns_node_get_next_called, node, return show (axl_ns_node_get_next_called (NULL, f.text, f.text));, "null")
NULLCALL (axl_ns_node_get_next_called, ns, return show (axl_ns_node_get_next_called (f.node, NULL, f.text));, "null")
NULLCALL (axl_ns_node_get_next_called, name, return show (axl_ns_node_get_next_called (f.node, f.text, NULL));, "null")
NULLCALL (axl_ns_node_get_previous_called, node, return show (axl_ns_node_get_previous_called (NULL, f.text, f.text));, "null")
NULLCALL (axl_ns_node_get_previous_called, ns, return show (axl_ns_node_get_previous_called (f.node, NULL, f.text));, "null")
NULLCALL (axl_ns_node_get_previous_called, name, return show (axl_ns_node_get_previous_called (f.node, f.text, NULL));, "null")
NULLCALL (axl_ns_node_is_prefixed, node, return show (axl_ns_node_is_prefixed (NULL, &f.size));, "0")
NULLCALL (axl_pi_are_equal, pi, return show (axl_pi_are_equal (NULL, f.pi));, "0")
NULLCALL (axl_pi_are_equal, pi2, return show (axl_pi_are_equal (f.pi, NULL));, "0")
NULLCALL (axl_pi_copy, pi, return show (axl_pi_copy (NULL));, "null")
NULLCALL (axl_pi_free, pi, axl_pi_free (NULL); return "void";, "void")
NULLCALL (axl_pi_get_content, pi, return show (axl_pi_get_content (NULL));, "null")
NULLCALL (axl_pi_get_name, pi, return show (axl_pi_get_name (NULL));, "null")
NULLCALL (axl_pi_get_size, pi, return show (axl_pi_get_size (NULL));, "-1")
NULLCALL (axl_stack_free, stack, axl_stack_free (NULL); return "void";, "void")
NULLCALL (axl_stack_is_empty, stack, return show (axl_stack_is_empty (NULL));, "0")
NULLCALL (axl_stack_peek, stack, return show (axl_stack_peek (NULL));, "null")
NULLCALL (axl_stack_pop, stack, return show (axl_stack_pop (NULL));, "null")
NULLCALL (axl_stack_push, stack, axl_stack_push (NULL, (axlPointer) f.text); return "void";, "void")
NULLCALL (axl_stack_size, stack, return show (axl_stack_size (NULL));, "-1")
NULLCALL (axl_strdup, string, return show (axl_strdup (NULL));, "null")
NULLCALL (axl_stream_accept, stream, axl_stream_accept (NULL); return "void";, "void")
NULLCALL (axl_stream_casecmp, chunk1, return show (axl_stream_casecmp (NULL, f.text, 1));, "0")
NULLCALL (axl_stream_casecmp, chunk2, return show (axl_stream_casecmp (f.text, NULL, 1));, "0")
NULLCALL (axl_stream_cmp, chunk1, return show (axl_stream_cmp (NULL, f.text, 1));, "0")
NULLCALL (axl_stream_cmp, chunk2, return show (axl_stream_cmp (f.text, NULL, 1));, "0")
NULLCALL (axl_stream_free, stream, axl_stream_free (NULL); return "void";, "void")
NULLCALL (axl_stream_get_following, stream, return show (axl_stream_get_following (NULL, 1));, "null")
NULLCALL (axl_stream_get_global_index, stream, return show (axl_stream_get_global_index (NULL));, "-1")
NULLCALL (axl_stream_get_index, stream, return show (axl_stream_get_index (NULL));, "-1")
NULLCALL (axl_stream_get_near_to, stream, return show (axl_stream_get_near_to (NULL, 1));, "null")
NULLCALL (axl_stream_get_size, stream, return show (axl_stream_get_size (NULL));, "-1")
NULLCALL (axl_stream_inspect_several, stream, return show (axl_stream_inspect_several (NULL, 1, "z"));, "-1")
NULLCALL (axl_stream_is_white_space, chunk, return show (axl_stream_is_white_space (NULL));, "0")
NULLCALL (axl_stream_join, separator, return show (axl_stream_join (f.vec, NULL));, "null")
NULLCALL (axl_stream_push, stream, axl_stream_push (NULL, f.text, 1); return "void";, "void")
NULLCALL (axl_stream_push, content, axl_stream_push (f.stream, NULL, 1); return "void";, "void")
NULLCALL (axl_stream_remains, stream, return show (axl_stream_remains (NULL));, "0")
NULLCALL (axl_stream_remove, chunk, axl_stream_remove (NULL, f.text, 1); return "void";, "void")
NULLCALL (axl_stream_remove, value, axl_stream_remove (f.text, NULL, 1); return "void";, "void")
NULLCALL (axl_stream_split, chunk, return show (axl_stream_split (NULL, 1, "z"));, "null")
NULLCALL (axl_stream_strdup, chunk, return show (axl_stream_strdup (NULL));, "null")
NULLCALL (axl_stream_strdup_n, chunk, return show (axl_stream_strdup_n (NULL, 1));, "null")
NULLCALL (axl_stream_to_lower, chunk, return show (axl_stream_to_lower (NULL));, "null")
NULLCALL (axl_stream_to_lower_copy, chunk, return show (axl_stream_to_lower_copy (NULL));, "null")
NULLCALL (axl_stream_to_upper, chunk, return show (axl_stream_to_upper (NULL));, "null")
NULLCALL (axl_stream_to_upper_copy, chunk, return show (axl_stream_to_upper_copy (NULL));, "null")
NULLCALL (axl_stream_trim, chunk, axl_stream_trim (NULL); return "void";, "void")
NULLCALL (axl_stream_trim_with_size, chunk, axl_stream_trim_with_size (NULL, &f.size); return "void";, "void")
NULLCALL (axl_string_factory_free, factory, axl_string_factory_free (NULL); return "void";, "void")
