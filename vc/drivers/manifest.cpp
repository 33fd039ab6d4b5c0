// Entry points through which the contracts on the real requirement functions of /repo are stated.
// They only call the public interface; the code under verification is what they call.
#include <nil/blueprint/manifest.hpp>
using namespace nil::blueprint;
typedef std::shared_ptr<manifest_param> P;
extern "C" {
manifest_param *vf_mk_u() { return new manifest_unsat_param(); }
manifest_param *vf_mk_v(std::uint32_t v) { return new manifest_single_value_param(v); }
manifest_param *vf_mk_r(std::int32_t a, std::int32_t b, std::uint32_t s) { return new manifest_range_param(a, b, s); }
manifest_param *vf_mk_s(const std::set<std::uint32_t> *s) { return new manifest_set_param(*s); }
bool vf_check(manifest_param *p, std::uint32_t x, bool strict) { return p->check_manifest_param(x, strict); }
bool vf_sat(manifest_param *p) { return p->is_satisfiable(); }
std::uint32_t vf_max(manifest_param *p) { return p->max_value_if_sat(); }
manifest_param *vf_intersect(manifest_param *a, manifest_param *b) { return a->intersect(P(b)).get(); }
manifest_param *vf_merge(manifest_param *a, manifest_param *b) { return a->merge_with(P(b)).get(); }
manifest_param *vf_subtract(manifest_param *a, const std::set<std::uint32_t> *s) { return a->subtract(*s).get(); }
void vf_collect(manifest_param *p, std::set<std::uint32_t> *out) {
    for (std::uint32_t v : *p) {
        __vf_assert(out->lower_bound(v) == out->end());    // larger than everything visited so far
        out->insert(v);
    }
}
int vf_lk_merge(int a, int b) { return int(manifest_lookup_type(manifest_lookup_type::type(a)).merge_with(manifest_lookup_type::type(b)).t); }
int vf_lk_intersect(int a, int b) { return int(manifest_lookup_type(manifest_lookup_type::type(a)).intersect(manifest_lookup_type::type(b)).t); }
int vf_ct_merge(int a, int b) { return int(manifest_constant_type(manifest_constant_type::type(a)).merge_with(manifest_constant_type::type(b)).t); }
int vf_ct_intersect(int a, bool has) { return int(manifest_constant_type(manifest_constant_type::type(a)).intersect(compiler_manifest(7, has)).t); }
int vf_ct_bool(bool b) { return int(manifest_constant_type(b).t); }
int vf_ct_default() { return int(manifest_constant_type().t); }
int vf_lk_default() { return int(manifest_lookup_type().t); }
bool vf_lk_eq(int a, int b) { return manifest_lookup_type(manifest_lookup_type::type(a)) == manifest_lookup_type::type(b); }
bool vf_lk_ne(int a, int b) { return manifest_lookup_type(manifest_lookup_type::type(a)) != manifest_lookup_type::type(b); }
bool vf_lk_lt(int a, int b) { return manifest_lookup_type(manifest_lookup_type::type(a)) < manifest_lookup_type::type(b); }
bool vf_ct_eq(int a, int b) { return manifest_constant_type(manifest_constant_type::type(a)) == manifest_constant_type::type(b); }
bool vf_ct_ne(int a, int b) { return manifest_constant_type(manifest_constant_type::type(a)) != manifest_constant_type::type(b); }
bool vf_ct_lt(int a, int b) { return manifest_constant_type(manifest_constant_type::type(a)) < manifest_constant_type::type(b); }
// component and compiler manifests
plonk_component_manifest *vf_cm(manifest_param *p, int c) { return new plonk_component_manifest(P(p), manifest_constant_type::type(c)); }
plonk_component_manifest *vf_cm_copy(plonk_component_manifest *m) { return new plonk_component_manifest(*m); }
bool vf_cm_check(plonk_component_manifest *m, std::uint32_t w, std::uint32_t c, bool strict) { return m->check_manifest(w, c, strict); }
bool vf_cm_check_default(plonk_component_manifest *m, std::uint32_t w, std::uint32_t c) { return m->check_manifest(w, c); }
bool vf_cm_sat(plonk_component_manifest *m) { return m->is_satisfiable(); }
plonk_component_manifest *vf_cm_merge(plonk_component_manifest *a, plonk_component_manifest *b) { return new plonk_component_manifest(a->merge_with(*b)); }
manifest_param *vf_cm_witness(plonk_component_manifest *m) { return m->witness_amount.get(); }
int vf_cm_constant(plonk_component_manifest *m) { return int(m->constant_required.t); }
compiler_manifest *vf_comp(std::uint32_t max, bool c) { return new compiler_manifest(max, c); }
void vf_comp_set(compiler_manifest *m, std::uint32_t max) { m->set_max_witness_amount(max); }
std::uint32_t vf_comp_get(compiler_manifest *m) { return m->get_max_witness_amount(); }
plonk_component_manifest *vf_comp_intersect(compiler_manifest *m, plonk_component_manifest *c) { return new plonk_component_manifest(m->intersect(*c)); }
// gate manifests
bool vf_gate_less(component_gate_manifest *a, component_gate_manifest *b) {
    return component_gate_manifest_comparison()(std::shared_ptr<component_gate_manifest>(a), std::shared_ptr<component_gate_manifest>(b));
}
// gate families: the amount and the order are arbitrary functions of the family (contracts of the two externals)
std::uint32_t vf_amount(const void *self, std::uint32_t k);
bool vf_before(const void *self, std::uint32_t a, const void *other, std::uint32_t b);
struct vf_family : component_gate_manifest {
    std::uint32_t k;
    vf_family(std::uint32_t v) : k(v) {}
    std::uint32_t gates_amount() const override { return vf_amount(this, k); }
    bool operator<(const component_gate_manifest *o) const override { return vf_before(this, k, o, static_cast<const vf_family *>(o)->k); }
};
struct vf_family2 : component_gate_manifest {
    std::uint32_t k;
    vf_family2(std::uint32_t v) : k(v) {}
    std::uint32_t gates_amount() const override { return vf_amount(this, k); }
    bool operator<(const component_gate_manifest *o) const override { return vf_before(this, k, o, static_cast<const vf_family2 *>(o)->k); }
};
struct vf_family_plain : component_gate_manifest { std::uint32_t gates_amount() const override { return vf_amount(this, 0); } };
vf_family *vf_mk_family(std::uint32_t k) { return new vf_family(k); }
vf_family2 *vf_mk_family2(std::uint32_t k) { return new vf_family2(k); }
vf_family_plain *vf_mk_family_plain() { return new vf_family_plain(); }
void *vf_gm_set(gate_manifest *g) { return &g->component_gate_manifests; }
gate_manifest *vf_gm() { return new gate_manifest(); }
gate_manifest *vf_gm_of(vf_family *f) { return new gate_manifest(*f); }
gate_manifest *vf_gm_copy(gate_manifest *g) { return new gate_manifest(*g); }
gate_manifest *vf_gm_add(gate_manifest *g, vf_family *f) { return &g->add(*f); }
gate_manifest *vf_gm_merge(gate_manifest *g, gate_manifest *o) { return &g->merge_with(*o); }
std::uint32_t vf_gm_amount(gate_manifest *g) { return g->get_gates_amount(); }
}
