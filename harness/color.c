/* The command line program, its 3D dump replaced by one that lists each leaf with its colour and the box of its points. */
#define main hob3l_main
#define cp_csg3_tree_put_scad list_leaves
#include <src/hob3l/main.c>
#undef main
static void walk(cp_obj_t *o);
static void walk_v(cp_v_obj_p_t *v) { for (size_t i = 0; i < v->size; i++) walk(v->data[i]); }
static void show(char const *k, cp_gc_t gc, cp_vec3_t lo, cp_vec3_t hi)
{
    printf("LEAF %s %u %u %u %u %u %.9g %.9g %.9g %.9g %.9g %.9g\n", k, gc.color.r, gc.color.g, gc.color.b, gc.color.a, (unsigned)gc.modifier, lo.x, lo.y, lo.z, hi.x, hi.y, hi.z);
}
static void walk(cp_obj_t *o)
{
    switch (o->type) {
    case CP_CSG_ADD: walk_v(&((cp_csg_add_t*)o)->add); break;
    case CP_CSG_SUB: walk_v(&((cp_csg_sub_t*)o)->add->add); walk_v(&((cp_csg_sub_t*)o)->sub->add); break;
    case CP_CSG_CUT: for (size_t i = 0; i < ((cp_csg_cut_t*)o)->cut.size; i++) walk_v(&((cp_csg_cut_t*)o)->cut.data[i]->add); break;
    case CP_CSG_XOR: for (size_t i = 0; i < ((cp_csg_xor_t*)o)->xor.size; i++) walk_v(&((cp_csg_xor_t*)o)->xor.data[i]->add); break;
    case CP_CSG3_SPHERE: { cp_csg3_sphere_t *s = (void*)o; show("sphere", s->gc, s->mat->n.w, s->mat->n.w); break; }
    case CP_CSG3_POLY: {
        cp_csg3_poly_t *p = (void*)o; cp_vec3_t lo = {.x=1e300,.y=1e300,.z=1e300}, hi = {.x=-1e300,.y=-1e300,.z=-1e300};
        for (size_t i = 0; i < p->point.size; i++) { cp_vec3_t c = p->point.data[i].coord; for (int k = 0; k < 3; k++) { if (c.v[k] < lo.v[k]) lo.v[k] = c.v[k]; if (c.v[k] > hi.v[k]) hi.v[k] = c.v[k]; } }
        show("poly", p->gc, lo, hi); break; }
    default: printf("LEAF? %u\n", (unsigned)o->type);
    }
}
extern void list_leaves(cp_stream_t *s, cp_csg3_tree_t *r) { (void)s; if (r->root != NULL) walk_v(&r->root->add); printf("END\n"); }
int main(int argc, char **argv) { return hob3l_main(argc, argv); }
