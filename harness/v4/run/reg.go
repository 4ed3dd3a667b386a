// Code generated by tools/reg.py from the harness functions. DO NOT EDIT.
package main

import "verif/h/v4/h"

var reg = map[string]func(){
	"H_C80_between":       h.H_C80_between,
	"H_C80_big":           h.H_C80_big,
	"H_C80_compare":       h.H_C80_compare,
	"H_C80_in":            h.H_C80_in,
	"H_C80_is":            h.H_C80_is,
	"H_C80_list":          h.H_C80_list,
	"H_C80_logic":         h.H_C80_logic,
	"H_C80_math":          h.H_C80_math,
	"H_C80_pattern":       h.H_C80_pattern,
	"H_C81_bad":           h.H_C81_bad,
	"H_C81_bool":          h.H_C81_bool,
	"H_C81_date":          h.H_C81_date,
	"H_C81_digits":        h.H_C81_digits,
	"H_C81_ident":         h.H_C81_ident,
	"H_C81_long":          h.H_C81_long,
	"H_C81_number":        h.H_C81_number,
	"H_C81_stamp":         h.H_C81_stamp,
	"H_C81_string":        h.H_C81_string,
	"H_C82_big":           h.H_C82_big,
	"H_C82_bool":          h.H_C82_bool,
	"H_C82_field_pattern": h.H_C82_field_pattern,
	"H_C82_fields":        h.H_C82_fields,
	"H_C82_like":          h.H_C82_like,
	"H_C82_literal":       h.H_C82_literal,
	"H_C82_logic":         h.H_C82_logic,
	"H_C82_long":          h.H_C82_long,
	"H_C82_math":          h.H_C82_math,
	"H_C82_missing":       h.H_C82_missing,
	"H_C82_nested":        h.H_C82_nested,
	"H_C82_patterns":      h.H_C82_patterns,
	"H_C82_regex":         h.H_C82_regex,
	"H_C82_strings":       h.H_C82_strings,
	"H_C82_text":          h.H_C82_text,
	"H_C82_utf":           h.H_C82_utf,
	"H_C82_wild":          h.H_C82_wild,
	"H_C83_between":       h.H_C83_between,
	"H_C83_big":           h.H_C83_big,
	"H_C83_in":            h.H_C83_in,
	"H_C83_lists":         h.H_C83_lists,
	"H_C83_long":          h.H_C83_long,
	"H_C83_math":          h.H_C83_math,
	"H_C83_null":          h.H_C83_null,
	"H_C83_strings":       h.H_C83_strings,
	"H_C84_big":           h.H_C84_big,
	"H_C84_chain":         h.H_C84_chain,
	"H_C84_compare":       h.H_C84_compare,
	"H_C84_list":          h.H_C84_list,
	"H_C84_logic":         h.H_C84_logic,
	"H_C84_math":          h.H_C84_math,
	"H_C84_names":         h.H_C84_names,
	"H_C84_not":           h.H_C84_not,
	"H_C84_other":         h.H_C84_other,
	"H_C84_pair":          h.H_C84_pair,
	"H_C84_text":          h.H_C84_text,
	"H_C85_big":           h.H_C85_big,
	"H_C85_chain":         h.H_C85_chain,
	"H_C85_compare":       h.H_C85_compare,
	"H_C85_list":          h.H_C85_list,
	"H_C85_logic":         h.H_C85_logic,
	"H_C85_other":         h.H_C85_other,
	"H_C85_pair":          h.H_C85_pair,
	"H_C85_text":          h.H_C85_text,
	"H_C86_big":           h.H_C86_big,
	"H_C86_chain":         h.H_C86_chain,
	"H_C86_compare":       h.H_C86_compare,
	"H_C86_list":          h.H_C86_list,
	"H_C86_logic":         h.H_C86_logic,
	"H_C86_names":         h.H_C86_names,
	"H_C86_other":         h.H_C86_other,
	"H_C86_same":          h.H_C86_same,
	"H_C87_big":           h.H_C87_big,
	"H_C87_chain":         h.H_C87_chain,
	"H_C87_compare":       h.H_C87_compare,
	"H_C87_leaf":          h.H_C87_leaf,
	"H_C87_list":          h.H_C87_list,
	"H_C87_logic":         h.H_C87_logic,
	"H_C87_other":         h.H_C87_other,
	"H_C87_text":          h.H_C87_text,
	"H_C88_charCase":      h.H_C88_charCase,
	"H_C88_charEnd":       h.H_C88_charEnd,
	"H_C88_charIdent":     h.H_C88_charIdent,
	"H_C88_charNumber":    h.H_C88_charNumber,
	"H_C88_charString":    h.H_C88_charString,
	"H_C88_edit":          h.H_C88_edit,
	"H_C88_logic":         h.H_C88_logic,
	"H_C88_math":          h.H_C88_math,
	"H_C88_short":         h.H_C88_short,
	"H_C89_args":          h.H_C89_args,
	"H_C89_logic":         h.H_C89_logic,
	"H_C89_other":         h.H_C89_other,
	"H_C89_test":          h.H_C89_test,
	"H_C90_args":          h.H_C90_args,
	"H_C90_big":           h.H_C90_big,
	"H_C90_compare":       h.H_C90_compare,
	"H_C90_logic":         h.H_C90_logic,
	"H_C90_text":          h.H_C90_text,
}
