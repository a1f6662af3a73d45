// Only parsed, never compiled to code: functions that the rules evaluate to make definitions, as the compiler would.
#include "TameParse/TameParse.h"
#include "TameParse/Compiler/precedence_block_rewriter.h"
#include "TameParse/Compiler/conflict_attribute_rewriter.h"
#include "TameParse/Lr/lr1_rewriter.h"
#include "TameParse/Lr/conflict.h"
#include <string>
// what the rules for conflicts make their definitions of
struct verif_build {
    static std::wstring name(int k) { return std::wstring(1, (wchar_t) (L'a' + k)); }
    static void name_symbols(contextfree::terminal_dictionary& terminals, int before, int count) {
        for (int k = 0; k < before; ++k) terminals.add_symbol(std::wstring(1, (wchar_t) (L'A' + k)));
        for (int k = 0; k < count; ++k) terminals.add_symbol(name(k));
    }
    static void level(yy_language::precedence_block& block, int assoc, int first, int second, int kind) {
        yy_language::precedence_block::item level;
        level.assoc = (yy_language::precedence_block::associativity) assoc;
        yy_language::ebnf_item_attributes attr;
        level.items.push_back(new yy_language::ebnf_item((yy_language::ebnf_item::type) kind, std::wstring(), name(first), attr, dfa::position(), dfa::position()));
        if (second >= 0) level.items.push_back(new yy_language::ebnf_item((yy_language::ebnf_item::type) kind, std::wstring(), name(second), attr, dfa::position(), dfa::position()));
        block.add_item(level);
    }
    static void mark(compiler::rule_item_data& data, const contextfree::rule_container& rule, int index, int action) {
        yy_language::ebnf_item_attributes attr;
        attr.conflict_action = (enum yy_language::ebnf_item_attributes::conflict_action) action;
        data.set_attributes(const_cast<contextfree::rule&>(*rule), (size_t) index, attr);
    }
    static int conflict_state(const lr::conflict_container& conf) { return conf->state(); }
    static const contextfree::item_container& conflict_token(const lr::conflict_container& conf) { return conf->token(); }
};
// what containers and shared pointers share
#include "TameParse/Util/container.h"
#include "TameParse/Util/syntax_ptr.h"
struct verif_thing {
    int name;
    util::container<verif_thing> inner;
    verif_thing() : name(0), inner((verif_thing*) 0) { }
    verif_thing(const verif_thing& copyFrom) : name(copyFrom.name), inner(copyFrom.inner) { }
    verif_thing* clone() const { return new verif_thing(*this); }
    static bool compare(const verif_thing* a, const verif_thing* b) { return a->name < b->name; }
    bool operator==(const verif_thing& compareTo) const { return name == compareTo.name; }
};
struct verif_node {
    int name;
    util::syntax_ptr<verif_node> inner;
    verif_node() : name(0) { }
    virtual ~verif_node() { }
};
struct verif_leaf : public verif_node { verif_leaf() : verif_node() { } };
template class util::syntax_ptr<verif_node>;
template class util::syntax_ptr<verif_leaf>;
struct verif_share {
    static void containers(verif_thing& thing, const verif_thing* constant) {
        typedef util::container<verif_thing> box;
        box made, cloned((const verif_thing&) thing), borrowed(&thing), owned(&thing, true), constants(constant), copied(made);
        made = copied;
        made.item(); ((const box&) made).item();
    }
    static void casts(util::syntax_ptr<verif_node>& up, util::syntax_ptr<verif_leaf>& down) {
        util::syntax_ptr<verif_node> other = down.cast_to<verif_node>();
        util::syntax_ptr<verif_leaf> leaf = up.cast_to<verif_leaf>();
    }
};
// how lexers, their streams and their tables come and go
struct verif_symbols : public dfa::lexer_symbol_stream {
    int left;
    verif_symbols(int count) : left(count) { }
    virtual dfa::lexer_symbol_stream& operator>>(int& result) {
        if (left > 0) { result = 'a' + (left & 1); --left; }
        else result = dfa::symbol_set::end_of_input;
        return *this;
    }
};
struct verif_life {
    typedef dfa::state_machine<wchar_t, dfa::state_machine_flat_table> machine;
    typedef dfa::dfa_lexer_base<machine, 0, 0, true> owning;
    typedef dfa::dfa_lexer_base<const machine&, 0, 0, false, const machine&> borrowing;
    static int read(dfa::lexeme_stream* from) {
        int count = 0;
        for (;;) {
            dfa::lexeme* next = 0;
            (*from) >> next;
            if (!next) break;
            delete next;
            ++count;
        }
        delete from;
        return count;
    }
    static void fill(dfa::ndfa_regex* automaton) {
        dfa::symbol_string text;
        text.push_back('a'); text.push_back('+');
        automaton->add_regex(0, text, dfa::accept_action(1, false));
        dfa::symbol_string other;
        other.push_back('b');
        automaton->add_regex(0, other, dfa::accept_action(2, false));
    }
    static dfa::ndfa* deterministic() {
        dfa::ndfa_regex* automaton = new dfa::ndfa_regex();
        fill(automaton);
        dfa::ndfa* unique = automaton->to_ndfa_with_unique_symbols();
        delete automaton;
        dfa::ndfa* result = unique->to_dfa();
        delete unique;
        return result;
    }
    static int unused() { dfa::lexer* lexer = new dfa::lexer(); delete lexer; return 0; }
    static int compiled(bool compact) {
        dfa::lexer* lexer = new dfa::lexer();
        dfa::symbol_string text;
        text.push_back('a'); text.push_back('+');
        lexer->add_symbol(text, 1);
        lexer->compile(compact);
        int count = read(lexer->create_stream(new verif_symbols(3)));
        lexer->compile(compact);
        delete lexer;
        return count;
    }
    static int given() {
        dfa::ndfa_regex* automaton = new dfa::ndfa_regex();
        fill(automaton);
        dfa::lexer* lexer = new dfa::lexer(automaton);
        int count = read(lexer->create_stream(new verif_symbols(3)));
        count += read(lexer->create_stream(new verif_symbols(1)));
        delete lexer;
        return count;
    }
    static int nothing(bool owned) {
        dfa::lexer* lexer = new dfa::lexer((dfa::basic_lexer*) 0, owned);
        dfa::symbol_string text;
        text.push_back('a'); text.push_back('+');
        lexer->add_symbol(text, 1);
        lexer->verify();
        int count = read(lexer->create_stream(new verif_symbols(3)));
        delete lexer;
        return count;
    }
    static int no_automaton() {
        dfa::lexer* lexer = new dfa::lexer((dfa::ndfa_regex*) 0);
        dfa::symbol_string text;
        text.push_back('a'); text.push_back('+');
        lexer->add_symbol(text, 1);
        lexer->compile(true);
        lexer->add_symbol(text, 2);
        lexer->verify();
        int count = read(lexer->create_stream(new verif_symbols(3)));
        delete lexer;
        return count;
    }
    static int from_dfa() {
        dfa::ndfa* automaton = deterministic();
        dfa::lexer* lexer = new dfa::lexer(*automaton);
        delete automaton;
        int count = read(lexer->create_stream(new verif_symbols(3)));
        delete lexer;
        return count;
    }
    static int wrapped(bool owns) {
        dfa::ndfa* automaton = deterministic();
        dfa::basic_lexer* inner = new dfa::lexer(*automaton);
        delete automaton;
        dfa::lexer* lexer = new dfa::lexer(inner, owns);
        int count = read(lexer->create_stream(new verif_symbols(3)));
        delete lexer;
        if (!owns) {
            count += read(inner->create_stream(new verif_symbols(3)));
            delete inner;
        }
        return count;
    }
    static int tables() {
        dfa::ndfa* automaton = deterministic();
        machine* states = new machine(*automaton);
        int count = automaton->count_states();
        delete automaton;
        int* accept = new int[count];
        for (int state = 0; state < count; ++state) accept[state] = state > 0 ? 1 : -1;
        dfa::basic_lexer* lexer = new borrowing(*states, count, accept);
        int result = read(lexer->create_stream(new verif_symbols(3)));
        delete lexer;
        lexer = new borrowing(*states, count, accept);
        result += read(lexer->create_stream(new verif_symbols(3)));
        delete lexer;
        delete[] accept;
        delete states;
        return result;
    }
    static int open_stream() {
        dfa::lexer* lexer = new dfa::lexer();
        dfa::lexeme_stream* stream = lexer->create_stream(new verif_symbols(3));
        delete stream;
        delete lexer;
        return 0;
    }
};
