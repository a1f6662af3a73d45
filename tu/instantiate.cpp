// Only parsed, never compiled to code or run: makes the compiler instantiate the library's templates so
// that the analyses see their members with resolved callees.
#include "TameParse/TameParse.h"
#include "TameParse/Util/stringreader.h"
#include "TameParse/Util/utf8reader.h"
#include "TameParse/Util/syntax_ptr.h"
#include "TameParse/Dfa/hard_coded_symbol_table.h"
#include "TameParse/Lr/ast_parser.h"
#include "TameParse/Lr/lr_state.h"
#include "TameParse/Lr/lr1_item_set.h"
#include <string>
#include <sstream>
#include <vector>

namespace dfa {
    template class range<int>;
    template class state_machine_compact_table<true>;
    template class state_machine_compact_table<false>;
    template class state_machine<int, state_machine_flat_table>;
    template class state_machine<wchar_t>;
    template class state_machine<wchar_t, state_machine_compact_table<true> >;
    template class state_machine_tables<wchar_t, hard_coded_symbol_table<wchar_t, 2> >;
    typedef symbol_level<int, 0x3, 0> small_level1;
    typedef symbol_level<small_level1, 0xc, 2> small_level2;
    typedef symbol_level<small_level2, 0x30, 4> small_level3;
    void use_small_levels() { small_level3 a; small_level3 b(a); small_level2 c; small_level1 d; (void) a; (void) b; (void) c; (void) d; }
    template struct symbol_level<int, 0x3, 0>;
    template struct symbol_level<small_level1, 0xc, 2>;
    template struct symbol_level<small_level2, 0x30, 4>;
    template struct symbol_table<int>;
    template struct symbol_level<symbol_level<symbol_level<symbol_level<int, 0xff, 0>, 0xff00, 8>, 0xff0000, 16>, 0x7f000000, 24>;
    template class symbol_translator<int>;
    template class symbol_translator<wchar_t>;
    template class symbol_translator<unsigned char>;
    template struct symbol_table<wchar_t>;
    template class hard_coded_symbol_table<wchar_t, 2>;
    template class hard_coded_symbol_table<int, 4>;
    template class hard_coded_symbol_table<unsigned char, 1>;
    template class dfa_lexer<int>;
    template class dfa_lexer<int, state_machine_flat_table, 7, 9>;
    template class dfa_lexer<wchar_t, state_machine_compact_table<> >;
}
namespace util {
    template class syntax_ptr<util::astnode>;
    template class basic_stringreader<char>;
    template class basic_stringreader<wchar_t>;
}
namespace verif_instantiate {
    template<typename C> void container_members(C& a, C& b) {
        C c(a);
        C d(b);
        d = a;
        a.item(); a.operator*(); a.operator->();
        const C& ca = a;
        *ca;
        ca.item();
        a < b; a <= b; a > b; a >= b; a == b; a != b;
    }
    void use_members() {
        std::wstring s(L"abc");
        dfa::position_tracker t;
        t.update_position(s.begin(), s.end());
        dfa::lexeme l(s.begin(), s.end(), dfa::position(), 1);
        l.content<wchar_t>();
        util::syntax_ptr<util::astnode> p;
        p.cast_to<util::astnode>();
        std::vector<util::astnode_container> kids;
        util::astnode n(1);
        n.add_children(kids.begin(), kids.end());
        lr::ast_parser* prs = 0;
        lr::ast_parser::state* st = 0;
        st->parse();
        st->process();
        st->look(0);
        st->next();
        lr::ast_parser::state st2(*st);
        prs->create_parser(new lr::ast_parser_actions(0));
        typedef lr::parser_stack<util::astnode_container> stack_type;
        stack_type* stk = 0;
        stack_type stk2(*stk);
        stk2 = *stk;
        stk->push(1, util::astnode_container());
        (*stk)[1];
        const stack_type& cstk = *stk;
        cstk[1];
        **stk;
        (*stk)->item;
        dfa::ndfa nd;
        lr::parser_tables* pt = 0;
        lr::parser_tables pt2(*pt);
        pt2 = *pt;
    }
    void use_containers(contextfree::item_container& a, contextfree::item_container& b, contextfree::rule_container& c, contextfree::rule_container& d,
                        lr::lr0_item_container& e, lr::lr0_item_container& f, lr::lr_action_container& g, lr::lr_action_container& h,
                        lr::lalr_state_container& i, lr::lalr_state_container& j) {
        container_members(a, b);
        container_members(c, d);
        container_members(e, f);
        container_members(g, h);
        container_members(i, j);
    }
}
namespace lr {
    template class parser<int, simple_parser_actions>;
    template class parser_stack<int>;
    void use_small_stack(parser_stack<int, 2>& a, const parser_stack<int, 2>& b) { parser_stack<int, 2> c; parser_stack<int, 2> d(a); c.push(0, 0); d.pop(); a = b; a[0] = b[0]; *a = *b; a->state = b->state; }
}
