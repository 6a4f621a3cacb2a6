"""Enumeration of operations that can panic, over the compiler's MIR."""
import re

CALLS = re.compile(
    r"(?:Option|Result)::(?:unwrap|expect|unwrap_err|expect_err|unwrap_unchecked)$"
    r"|^core::panicking::|^std::rt::(?:begin_panic|panic)|::unreachable_display$|^core::option::(?:unwrap|expect)_failed"
    r"|ops::index::Index(?:Mut)?(?:<.*>)?>::index(?:_mut)?$|ops::index::Index(?:Mut)?::index(?:_mut)?$"
    r"|^(?:str|core::str|core::slice|\[T\]|slice|alloc::string::String|alloc::vec::Vec|alloc::collections::vec_deque::VecDeque)"
    r"(?:::.*)?::(?:split_at|split_at_mut|remove|swap_remove|insert|insert_str|drain|replace_range|split_off|swap|copy_from_slice|"
    r"clone_from_slice|chunks|chunks_exact|windows|rotate_left|rotate_right|get_unchecked|slice_unchecked|copy_within|truncate|"
    r"step_by|as_chunks)$"
    r"|^text_size::range::TextRange::(?:new|cover|cover_offset)$|^text_size::range::TextRange::(?:at|up_to|empty)$"
    r"|^text_size::.*(?:Add|Sub|AddAssign|SubAssign).*>::(?:add|sub|add_assign|sub_assign)$"
    r"|TextSize as core::ops::arith::(?:Add|Sub)|TextRange as core::ops::arith::(?:Add|Sub)"
    r"|SyntaxNode::(?:token_at_offset|covering_element|child_or_token_at_range|splice_children)$|SyntaxText::slice$"
    r"|SourceFile::(?:reparse)$|line_index::LineIndex::(?:line_col|to_utf8_unchecked|line)$"
    r"|core::cell::RefCell::borrow|^core::iter::traits::iterator::Iterator::step_by$|RefCell.*::(?:borrow|borrow_mut|replace)$"
    r"|from_digit$|^core::num::.*::(?:pow|abs|div_euclid|ilog\w*|from_str_radix)$|u\d+::from_str_radix$"
    r"|Ast(?:Node|Token)::(?:clone_subtree)$|ra_ap_syntax::ast::make::|ra_ap_syntax::ted::|ra_ap_syntax::ast::edit_in_place::"
    r"|core::time::Duration::|std::time::")


def name(f):
    return f["r"][1] if "r" in f else f["fn"]


def sites(P, b):
    """(block index, kind, terminator) of every operation of this body that can panic"""
    for i, blk in enumerate(b.blocks):
        if blk["c"]:
            continue
        t = blk["t"]
        if t["t"] == "assert":
            if t["kind"] in ("other",):
                continue  # compiler generated alignment / null checks of `vec!`
            yield i, t["kind"], t
        elif t["t"] == "call":
            f = t["f"].get("f")
            if f:
                n = name(f)
                if CALLS.search(n) or CALLS.search(f["fn"]):
                    yield i, n, t
