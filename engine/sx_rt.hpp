// Out-of-line libstdc++ container primitives, written out so that symx sees their IR (engine build only).
#pragma once
#ifdef SX_ENGINE
#include <bits/stl_tree.h>
#include <list>
extern "C" {
struct sx_lnode { sx_lnode *next, *prev; };
__attribute__((used)) void sx_list_hook(sx_lnode* self, sx_lnode* pos) __asm__("_ZNSt8__detail15_List_node_base7_M_hookEPS0_");
void sx_list_hook(sx_lnode* self, sx_lnode* pos) { self->next = pos; self->prev = pos->prev; pos->prev->next = self; pos->prev = self; }
__attribute__((used)) void sx_list_unhook(sx_lnode* self) __asm__("_ZNSt8__detail15_List_node_base9_M_unhookEv");
void sx_list_unhook(sx_lnode* self) { sx_lnode* n = self->next; sx_lnode* p = self->prev; p->next = n; n->prev = p; }
__attribute__((used)) void sx_list_transfer(sx_lnode* self, sx_lnode* f, sx_lnode* l) __asm__("_ZNSt8__detail15_List_node_base11_M_transferEPS0_S1_");
void sx_list_transfer(sx_lnode* self, sx_lnode* f, sx_lnode* l) {
    if (self != l) { l->prev->next = self; f->prev->next = l; self->prev->next = f; sx_lnode* t = self->prev; self->prev = l->prev; l->prev = f->prev; f->prev = t; }
}
__attribute__((used)) void sx_list_reverse(sx_lnode* self) __asm__("_ZNSt8__detail15_List_node_base10_M_reverseEv");
void sx_list_reverse(sx_lnode* self) { sx_lnode* t = self; do { sx_lnode* n = t->next; t->next = t->prev; t->prev = n; t = n; } while (t != self); }
__attribute__((used)) void sx_list_swap(sx_lnode* x, sx_lnode* y) __asm__("_ZNSt8__detail15_List_node_base4swapERS0_S1_");
void sx_list_swap(sx_lnode* x, sx_lnode* y) {
    const sx_lnode a = *x, b = *y;
    const bool ex = a.next == x, ey = b.next == y;
    if (ex && ey) return;
    if (ey) { y->next = y->prev = y; } if (ex) { x->next = x->prev = x; }
    if (!ex) { *y = a; y->next->prev = y->prev->next = y; } else { y->next = y->prev = y; }
    if (!ey) { *x = b; x->next->prev = x->prev->next = x; } else { x->next = x->prev = x; }
}
struct sx_rb { int color; sx_rb *parent, *left, *right; };
static sx_rb* sx_rb_inc(sx_rb* x) {
    if (x->right) { x = x->right; while (x->left) x = x->left; }
    else { sx_rb* y = x->parent; while (x == y->right) { x = y; y = y->parent; } if (x->right != y) x = y; }
    return x;
}
static sx_rb* sx_rb_dec(sx_rb* x) {
    if (x->color == 0 && x->parent->parent == x) x = x->right;
    else if (x->left) { sx_rb* y = x->left; while (y->right) y = y->right; x = y; }
    else { sx_rb* y = x->parent; while (x == y->left) { x = y; y = y->parent; } x = y; }
    return x;
}
__attribute__((used)) sx_rb* sx_rb_inc1(sx_rb* x) __asm__("_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base");
sx_rb* sx_rb_inc1(sx_rb* x) { return sx_rb_inc(x); }
__attribute__((used)) sx_rb* sx_rb_inc2(sx_rb* x) __asm__("_ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base");
sx_rb* sx_rb_inc2(sx_rb* x) { return sx_rb_inc(x); }
__attribute__((used)) sx_rb* sx_rb_dec1(sx_rb* x) __asm__("_ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base");
sx_rb* sx_rb_dec1(sx_rb* x) { return sx_rb_dec(x); }
__attribute__((used)) sx_rb* sx_rb_dec2(sx_rb* x) __asm__("_ZSt18_Rb_tree_decrementPKSt18_Rb_tree_node_base");
sx_rb* sx_rb_dec2(sx_rb* x) { return sx_rb_dec(x); }
static void sx_rotl(sx_rb* x, sx_rb*& root) { sx_rb* y = x->right; x->right = y->left; if (y->left) y->left->parent = x; y->parent = x->parent; if (x == root) root = y; else if (x == x->parent->left) x->parent->left = y; else x->parent->right = y; y->left = x; x->parent = y; }
static void sx_rotr(sx_rb* x, sx_rb*& root) { sx_rb* y = x->left; x->left = y->right; if (y->right) y->right->parent = x; y->parent = x->parent; if (x == root) root = y; else if (x == x->parent->right) x->parent->right = y; else x->parent->left = y; y->right = x; x->parent = y; }
__attribute__((used)) void sx_rb_insert(bool left, sx_rb* x, sx_rb* p, sx_rb* header) __asm__("_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_");
void sx_rb_insert(bool left, sx_rb* x, sx_rb* p, sx_rb* header) {
    sx_rb*& root = header->parent;
    x->parent = p; x->left = 0; x->right = 0; x->color = 0;
    if (left) { p->left = x; if (p == header) { header->parent = x; header->right = x; } else if (p == header->left) header->left = x; }
    else { p->right = x; if (p == header->right) header->right = x; }
    while (x != root && x->parent->color == 0) {
        sx_rb* xpp = x->parent->parent;
        if (x->parent == xpp->left) {
            sx_rb* y = xpp->right;
            if (y && y->color == 0) { x->parent->color = 1; y->color = 1; xpp->color = 0; x = xpp; }
            else { if (x == x->parent->right) { x = x->parent; sx_rotl(x, root); } x->parent->color = 1; xpp->color = 0; sx_rotr(xpp, root); }
        } else {
            sx_rb* y = xpp->left;
            if (y && y->color == 0) { x->parent->color = 1; y->color = 1; xpp->color = 0; x = xpp; }
            else { if (x == x->parent->left) { x = x->parent; sx_rotr(x, root); } x->parent->color = 1; xpp->color = 0; sx_rotl(xpp, root); }
        }
    }
    root->color = 1;
}
// the node is taken out of the search tree; the tree is not balanced again, which only costs time
__attribute__((used)) sx_rb* sx_rb_erase(sx_rb* z, sx_rb* header) __asm__("_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_");
sx_rb* sx_rb_erase(sx_rb* z, sx_rb* header) {
    if (header->left == z) header->left = z->right ? sx_rb_inc(z) : z->parent;
    if (header->right == z) header->right = z->left ? sx_rb_dec(z) : z->parent;
    sx_rb* r;
    if (!z->left) r = z->right;
    else if (!z->right) r = z->left;
    else {
        r = z->right;
        while (r->left) r = r->left;
        if (r != z->right) {
            r->parent->left = r->right;
            if (r->right) r->right->parent = r->parent;
            r->right = z->right; r->right->parent = r;
        }
        r->left = z->left; r->left->parent = r;
    }
    if (r) r->parent = z->parent;
    if (header->parent == z) header->parent = r;
    else if (z->parent->left == z) z->parent->left = r;
    else z->parent->right = r;
    if (header->parent) { header->parent->color = 1; } else { header->left = header->right = header; }
    return z;
}
}
#endif
