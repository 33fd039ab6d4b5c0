// Entry points of the contract of EVM words and the stack (Z03).
#include <new>
#include <vector>
#include <nil/blueprint/zkevm/stack.hpp>
using namespace nil::blueprint;
struct vf_words {
    typedef boost::multiprecision::number<boost::multiprecision::backends::cpp_int_modular_backend<255>> integral_type;
    struct value_type {
        integral_type data;
        value_type() : data(0) {}
        template<class B> value_type(const boost::multiprecision::number<B> &x) : data(x) {}
        value_type(int x) : data(x) {}
        value_type(std::size_t x) : data(x) {}
    };
};
typedef std::vector<vf_words::value_type> chunks;
extern "C" {
void vf_split_word(const zkevm_word_type *w, chunks *out) { *out = zkevm_word_to_field_element<vf_words>(*w); }
void vf_make_word(const boost::multiprecision::number<boost::multiprecision::backends::cpp_int_modular_backend<257>> *v, zkevm_word_type *out) { *out = zwordc(*v); }
void vf_split_64(const vf_words::value_type *v, chunks *out) { *out = chunk_64_to_16<vf_words>(*v); }
void vf_stack_push(zkevm_stack *s, const zkevm_word_type *w) { s->push(*w); }
void vf_stack_pop(zkevm_stack *s, zkevm_word_type *out) { *out = s->pop(); }
void vf_stack_top(zkevm_stack *s, zkevm_word_type *out) { *out = s->top(); }
void vf_stack_swap(zkevm_stack *s) { s->swap(); }
void vf_stack_dup(zkevm_stack *s) { s->dup(); }
void vf_stack_new(zkevm_stack *s) { new (s) zkevm_stack(); }
}
