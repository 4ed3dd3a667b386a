// Code generated by tools/reg.py from the harness functions. DO NOT EDIT.
package main

import "verif/h/v6/h"

var reg = map[string]func(){
	"H_C01_array":     h.H_C01_array,
	"H_C01_big":       h.H_C01_big,
	"H_C01_forms":     h.H_C01_forms,
	"H_C01_full":      h.H_C01_full,
	"H_C01_ops":       h.H_C01_ops,
	"H_C01_rep":       h.H_C01_rep,
	"H_C02_alpha":     h.H_C02_alpha,
	"H_C02_bytes":     h.H_C02_bytes,
	"H_C02_long":      h.H_C02_long,
	"H_C02_tail":      h.H_C02_tail,
	"H_C03_in":        h.H_C03_in,
	"H_C03_num":       h.H_C03_num,
	"H_C04_id":        h.H_C04_id,
	"H_C04_long":      h.H_C04_long,
	"H_C04_quote":     h.H_C04_quote,
	"H_C04_shape":     h.H_C04_shape,
	"H_C05_date":      h.H_C05_date,
	"H_C05_gap":       h.H_C05_gap,
	"H_C05_word":      h.H_C05_word,
	"H_C06_alpha":     h.H_C06_alpha,
	"H_C06_array":     h.H_C06_array,
	"H_C06_bytes":     h.H_C06_bytes,
	"H_C06_forms":     h.H_C06_forms,
	"H_C06_full":      h.H_C06_full,
	"H_C06_long":      h.H_C06_long,
	"H_C06_num":       h.H_C06_num,
	"H_C06_quote":     h.H_C06_quote,
	"H_C06_rep":       h.H_C06_rep,
	"H_C07_alpha":     h.H_C07_alpha,
	"H_C07_bytes":     h.H_C07_bytes,
	"H_C07_long":      h.H_C07_long,
	"H_C07_tail":      h.H_C07_tail,
	"H_C08_parse":     h.H_C08_parse,
	"H_C08_use":       h.H_C08_use,
	"H_C09_repeat":    h.H_C09_repeat,
	"H_C10_array":     h.H_C10_array,
	"H_C10_big":       h.H_C10_big,
	"H_C10_full":      h.H_C10_full,
	"H_C10_lit":       h.H_C10_lit,
	"H_C10_rep":       h.H_C10_rep,
	"H_C10_values":    h.H_C10_values,
	"H_C11_history":   h.H_C11_history,
	"H_C11_refuse":    h.H_C11_refuse,
	"H_C12_array":     h.H_C12_array,
	"H_C12_big":       h.H_C12_big,
	"H_C12_full":      h.H_C12_full,
	"H_C12_lit":       h.H_C12_lit,
	"H_C12_ops":       h.H_C12_ops,
	"H_C12_rep":       h.H_C12_rep,
	"H_C12_values":    h.H_C12_values,
	"H_C20_dates":     h.H_C20_dates,
	"H_C20_fields":    h.H_C20_fields,
	"H_C20_literal":   h.H_C20_literal,
	"H_C20_long":      h.H_C20_long,
	"H_C20_mixed":     h.H_C20_mixed,
	"H_C21_big":       h.H_C21_big,
	"H_C21_tree":      h.H_C21_tree,
	"H_C21_types":     h.H_C21_types,
	"H_C22_big":       h.H_C22_big,
	"H_C22_fields":    h.H_C22_fields,
	"H_C22_literal":   h.H_C22_literal,
	"H_C22_nested":    h.H_C22_nested,
	"H_C22_types":     h.H_C22_types,
	"H_C23_between":   h.H_C23_between,
	"H_C23_big":       h.H_C23_big,
	"H_C23_in":        h.H_C23_in,
	"H_C23_infield":   h.H_C23_infield,
	"H_C23_list":      h.H_C23_list,
	"H_C23_null":      h.H_C23_null,
	"H_C23_range":     h.H_C23_range,
	"H_C24_like":      h.H_C24_like,
	"H_C24_long":      h.H_C24_long,
	"H_C24_regex":     h.H_C24_regex,
	"H_C24_repat":     h.H_C24_repat,
	"H_C24_types":     h.H_C24_types,
	"H_C24_utf":       h.H_C24_utf,
	"H_C24_wild":      h.H_C24_wild,
	"H_C25_aggregate": h.H_C25_aggregate,
	"H_C25_big":       h.H_C25_big,
	"H_C25_binary":    h.H_C25_binary,
	"H_C25_nested":    h.H_C25_nested,
	"H_C25_unary":     h.H_C25_unary,
	"H_C26_binary":    h.H_C26_binary,
	"H_C26_nested":    h.H_C26_nested,
	"H_C26_unary":     h.H_C26_unary,
	"H_C30_binary":    h.H_C30_binary,
	"H_C30_lit":       h.H_C30_lit,
	"H_C31_array":     h.H_C31_array,
	"H_C31_big":       h.H_C31_big,
	"H_C31_full":      h.H_C31_full,
	"H_C31_pairs":     h.H_C31_pairs,
	"H_C31_rep":       h.H_C31_rep,
	"H_C31_triples":   h.H_C31_triples,
	"H_C32_full":      h.H_C32_full,
	"H_C32_rep":       h.H_C32_rep,
	"H_C40_array":     h.H_C40_array,
	"H_C40_big":       h.H_C40_big,
	"H_C40_full":      h.H_C40_full,
	"H_C40_lit":       h.H_C40_lit,
	"H_C40_names":     h.H_C40_names,
	"H_C40_pairs":     h.H_C40_pairs,
	"H_C40_rep":       h.H_C40_rep,
	"H_C40_same":      h.H_C40_same,
	"H_C42_args":      h.H_C42_args,
	"H_C42_array":     h.H_C42_array,
	"H_C42_big":       h.H_C42_big,
	"H_C42_full":      h.H_C42_full,
	"H_C42_lit":       h.H_C42_lit,
	"H_C42_ops":       h.H_C42_ops,
	"H_C42_rep":       h.H_C42_rep,
	"H_C42_text":      h.H_C42_text,
	"H_C42_values":    h.H_C42_values,
	"H_C43_args":      h.H_C43_args,
	"H_C43_logic":     h.H_C43_logic,
	"H_C43_other":     h.H_C43_other,
	"H_C43_test":      h.H_C43_test,
	"H_C44_args":      h.H_C44_args,
	"H_C44_big":       h.H_C44_big,
	"H_C44_lit":       h.H_C44_lit,
	"H_C44_ops":       h.H_C44_ops,
	"H_C44_values":    h.H_C44_values,
	"H_C50_array":     h.H_C50_array,
	"H_C50_big":       h.H_C50_big,
	"H_C50_full":      h.H_C50_full,
	"H_C50_lit":       h.H_C50_lit,
	"H_C50_pairs":     h.H_C50_pairs,
	"H_C50_rep":       h.H_C50_rep,
	"H_C50_text":      h.H_C50_text,
}
