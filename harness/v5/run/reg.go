// Code generated by tools/reg.py from the harness functions. DO NOT EDIT.
package main

import "verif/h/v5/h"

var reg = map[string]func(){
	"H_C60_between":       h.H_C60_between,
	"H_C60_big":           h.H_C60_big,
	"H_C60_compare":       h.H_C60_compare,
	"H_C60_in":            h.H_C60_in,
	"H_C60_is":            h.H_C60_is,
	"H_C60_list":          h.H_C60_list,
	"H_C60_logic":         h.H_C60_logic,
	"H_C60_math":          h.H_C60_math,
	"H_C60_pattern":       h.H_C60_pattern,
	"H_C61_bad":           h.H_C61_bad,
	"H_C61_bool":          h.H_C61_bool,
	"H_C61_date":          h.H_C61_date,
	"H_C61_digits":        h.H_C61_digits,
	"H_C61_ident":         h.H_C61_ident,
	"H_C61_long":          h.H_C61_long,
	"H_C61_number":        h.H_C61_number,
	"H_C61_stamp":         h.H_C61_stamp,
	"H_C61_string":        h.H_C61_string,
	"H_C62_big":           h.H_C62_big,
	"H_C62_bool":          h.H_C62_bool,
	"H_C62_field_pattern": h.H_C62_field_pattern,
	"H_C62_fields":        h.H_C62_fields,
	"H_C62_like":          h.H_C62_like,
	"H_C62_literal":       h.H_C62_literal,
	"H_C62_logic":         h.H_C62_logic,
	"H_C62_long":          h.H_C62_long,
	"H_C62_math":          h.H_C62_math,
	"H_C62_missing":       h.H_C62_missing,
	"H_C62_nested":        h.H_C62_nested,
	"H_C62_patterns":      h.H_C62_patterns,
	"H_C62_regex":         h.H_C62_regex,
	"H_C62_strings":       h.H_C62_strings,
	"H_C62_text":          h.H_C62_text,
	"H_C62_utf":           h.H_C62_utf,
	"H_C62_wild":          h.H_C62_wild,
	"H_C63_between":       h.H_C63_between,
	"H_C63_big":           h.H_C63_big,
	"H_C63_in":            h.H_C63_in,
	"H_C63_lists":         h.H_C63_lists,
	"H_C63_long":          h.H_C63_long,
	"H_C63_math":          h.H_C63_math,
	"H_C63_null":          h.H_C63_null,
	"H_C63_strings":       h.H_C63_strings,
	"H_C64_big":           h.H_C64_big,
	"H_C64_chain":         h.H_C64_chain,
	"H_C64_compare":       h.H_C64_compare,
	"H_C64_list":          h.H_C64_list,
	"H_C64_logic":         h.H_C64_logic,
	"H_C64_math":          h.H_C64_math,
	"H_C64_names":         h.H_C64_names,
	"H_C64_not":           h.H_C64_not,
	"H_C64_other":         h.H_C64_other,
	"H_C64_pair":          h.H_C64_pair,
	"H_C64_text":          h.H_C64_text,
	"H_C65_big":           h.H_C65_big,
	"H_C65_chain":         h.H_C65_chain,
	"H_C65_compare":       h.H_C65_compare,
	"H_C65_list":          h.H_C65_list,
	"H_C65_logic":         h.H_C65_logic,
	"H_C65_other":         h.H_C65_other,
	"H_C65_pair":          h.H_C65_pair,
	"H_C65_text":          h.H_C65_text,
	"H_C66_big":           h.H_C66_big,
	"H_C66_chain":         h.H_C66_chain,
	"H_C66_compare":       h.H_C66_compare,
	"H_C66_list":          h.H_C66_list,
	"H_C66_logic":         h.H_C66_logic,
	"H_C66_names":         h.H_C66_names,
	"H_C66_other":         h.H_C66_other,
	"H_C66_same":          h.H_C66_same,
	"H_C67_big":           h.H_C67_big,
	"H_C67_chain":         h.H_C67_chain,
	"H_C67_compare":       h.H_C67_compare,
	"H_C67_leaf":          h.H_C67_leaf,
	"H_C67_list":          h.H_C67_list,
	"H_C67_logic":         h.H_C67_logic,
	"H_C67_other":         h.H_C67_other,
	"H_C67_text":          h.H_C67_text,
	"H_C68_charCase":      h.H_C68_charCase,
	"H_C68_charEnd":       h.H_C68_charEnd,
	"H_C68_charIdent":     h.H_C68_charIdent,
	"H_C68_charNumber":    h.H_C68_charNumber,
	"H_C68_charString":    h.H_C68_charString,
	"H_C68_edit":          h.H_C68_edit,
	"H_C68_logic":         h.H_C68_logic,
	"H_C68_math":          h.H_C68_math,
	"H_C68_short":         h.H_C68_short,
	"H_C69_args":          h.H_C69_args,
	"H_C69_logic":         h.H_C69_logic,
	"H_C69_other":         h.H_C69_other,
	"H_C69_test":          h.H_C69_test,
	"H_C70_args":          h.H_C70_args,
	"H_C70_big":           h.H_C70_big,
	"H_C70_compare":       h.H_C70_compare,
	"H_C70_logic":         h.H_C70_logic,
	"H_C70_text":          h.H_C70_text,
}
