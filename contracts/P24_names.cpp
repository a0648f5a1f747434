// KIND: bounded
// BOUND: all histories of up to 4 (5 for creations) creation, naming and lookup steps with ids 0..4 and six names (numeric and not)
// TIME: 100
// P24: segments are found by id and by name; ids and names are unique at all times.
#include "topo.hpp"
typedef viennagrid::triangular_2d_mesh M; typedef viennagrid::result_of::segmentation<M>::type S; typedef viennagrid::result_of::segment_handle<S>::type H;
static const char * NAMES[] = { "a", "b", "0", "1", "2", "3" };
static void check(S & s, std::map<int, std::string> const & model, int highest)
{
  S const & cs = s; std::map<int, std::string> got; std::vector<int> order;
  for (S::iterator i = s.begin(); i != s.end(); ++i) { got[i->id()] = i->name(); order.push_back((*i).id()); }
  ensures_true("iteration_lists_all_segments", got == model && order.size() == model.size());
  for (std::size_t i = 1; i < order.size(); ++i) ensures_true("ordered_by_id", order[i - 1] < order[i]);
  std::vector<int> corder; for (S::const_iterator i = cs.begin(); i != cs.end(); ++i) corder.push_back(i->id()); ensures_true("const_iteration", corder == order);
  ensures_true("size", s.size() == model.size() && s.empty() == model.empty()); ensures_true("id_upper_bound", s.id_upper_bound() == highest);
  std::set<std::string> names;
  for (std::map<int, std::string>::const_iterator i = model.begin(); i != model.end(); ++i)
  {
    names.insert(i->second);
    ensures_true("by_id", s.get_segment(i->first).id() == i->first && cs.get_segment(i->first).id() == i->first && s[i->first].id() == i->first && s(i->first).id() == i->first && cs[i->first].id() == i->first && cs(i->first).id() == i->first && cs.at(i->first).id() == i->first);
    ensures_true("by_name", s.get_segment(i->second).id() == i->first && cs.get_segment(i->second).id() == i->first && s[i->second].id() == i->first && s(i->second).id() == i->first && cs[i->second].id() == i->first && cs(i->second).id() == i->first && cs.at(i->second).id() == i->first);
    ensures_true("find", s.find(i->first) != s.end() && s.find(i->first)->id() == i->first && cs.find(i->first) != cs.end());
    ensures_true("parent_and_mesh", &s.get_segment(i->first).parent() == &s && &s.get_segment(i->first).mesh() == &s.mesh());
  }
  ensures_true("names_unique", names.size() == model.size());
  for (int id = 0; id < 7; ++id)
  {
    ensures_true("segment_present", s.segment_present(id) == (model.count(id) > 0)); if (model.count(id)) continue;
    ensures_true("absent_not_found", s.find(id) == s.end()); bool thrown = false; try { cs.at(id); } catch (viennagrid::segment_id_not_found_exception const &) { thrown = true; } ensures_true("at_throws_for_absent_id", thrown);
  }
  for (int n = 0; n < 6; ++n) if (!names.count(NAMES[n])) { bool thrown = false; try { cs.at(std::string(NAMES[n])); } catch (viennagrid::segment_name_not_found_exception const &) { thrown = true; } ensures_true("at_throws_for_absent_name", thrown); }
}
static std::string dec(int i) { std::ostringstream os; os << i; return os.str(); }
CONTRACT(names_and_ids, "make_segment; get_make_segment; get_segment; set_name; segment_present; find; at; iterator; clear; init")
{
  M mesh; S s(mesh); std::map<int, std::string> model; int highest = -1, n = 1 + choose("steps", 4); check(s, model, highest);
  for (int k = 0; k < n; ++k)
  {
    std::set<std::string> names; for (std::map<int, std::string>::iterator i = model.begin(); i != model.end(); ++i) names.insert(i->second);
    int op = choose("op", 5);
    if (op <= 1)                                                                // create with a generated or given id
    {
      int id = op == 0 ? highest + 1 : choose("id", 5); bool had = model.count(id), clash = !had && names.count(dec(id)), thrown = false; int got = -1;
      try { got = op == 0 ? s.make_segment().id() : s.get_make_segment(id).id(); } catch (viennagrid::segment_name_collision_exception const &) { thrown = true; }
      ensures_true("collision_reported", thrown == clash); if (!clash) { ensures_true("right_segment", got == id); if (!had) model[id] = dec(id); highest = std::max(highest, id); } else highest = s.id_upper_bound();
    }
    else if (op == 2)                                                           // create or find by name
    {
      std::string nm = NAMES[choose("name", 6)]; bool had = names.count(nm), clash = !had && names.count(dec(highest + 1)), self = !had && nm == dec(highest + 1); int got = -1; bool thrown = false;
      requires_(!self);                                                         // asking by name for the default name of the next segment
      try { got = s.get_make_segment(nm).id(); } catch (viennagrid::segment_name_collision_exception const &) { thrown = true; }
      ensures_true("collision_reported", thrown == clash);
      if (had) { bool ok = model.count(got) && model[got] == nm; ensures_true("existing_name", ok); } else if (!clash) { ensures_true("next_id", got == highest + 1); highest = got; model[got] = nm; } else highest = s.id_upper_bound();
    }
    else if (op == 3)                                                           // rename
    {
      requires_(!model.empty()); int idx = choose("which", (int)model.size()); std::map<int, std::string>::iterator it = model.begin(); std::advance(it, idx); std::string nm = NAMES[choose("new_name", 6)]; bool clash = names.count(nm), thrown = false;
      try { s.get_segment(it->first).set_name(nm); } catch (viennagrid::segment_name_collision_exception const &) { thrown = true; }
      ensures_true("rename_collision_reported", thrown == clash); if (!clash) it->second = nm;
    }
    else { if (choose("init", 2)) s.init(mesh); else s.clear(); model.clear(); highest = -1; }
    check(s, model, highest);
  }
  cover("end");
}
// copying a segmentation to a copy of the mesh, and clearing
CONTRACT(copy_segmentation_, "copy_segmentation; copy; segmentation::clear")
{
  M mesh; typedef viennagrid::result_of::point<M>::type P; typedef viennagrid::result_of::vertex_handle<M>::type VH; typedef viennagrid::result_of::cell_handle<M>::type CH; std::vector<VH> v; for (int i = 0; i < 5; ++i) { P p; p[0] = i % 2; p[1] = i / 2; v.push_back(viennagrid::make_vertex(mesh, p)); }
  std::vector<CH> c; for (int i = 0; i < 3; ++i) c.push_back(viennagrid::make_triangle(mesh, v[i], v[i + 1], v[i + 2]));
  S s(mesh); int in[3]; for (int i = 0; i < 3; ++i) { in[i] = choose("segments", 8); for (int k = 0; k < 3; ++k) if (in[i] & (1 << k)) viennagrid::add(s[2 * k + 1], *c[i]); }
  M copy(mesh); S t(copy); t[1]; t[7];                                          // some segments exist already
  viennagrid::copy_segmentation(mesh, s, copy, t);
  for (int i = 0; i < 3; ++i) for (int k = 0; k < 3; ++k) { bool want = in[i] & (1 << k); ensures_true("copied_membership", !t.segment_present(2 * k + 1) ? !want : viennagrid::is_in_segment(t.get_segment(2 * k + 1), viennagrid::cells(copy)[i]) == want); }
  for (int k = 0; k < 3; ++k) { int n = 0; for (int i = 0; i < 3; ++i) n += (in[i] >> k) & 1; if (t.segment_present(2 * k + 1)) ensures_true("copied_size", (int)viennagrid::cells(t.get_segment(2 * k + 1)).size() == n); }
  ensures_true("nothing_in_unrelated_segment", viennagrid::cells(t.get_segment(7)).size() == 0);
  viennagrid::clear(t); ensures_true("clear_empties", t.size() == 0 && viennagrid::cells(t).size() == 0 && viennagrid::vertices(t).size() == 0); t[1]; ensures_true("cleared_segment_empty", viennagrid::cells(t[1]).size() == 0 && !viennagrid::is_in_segment(t[1], viennagrid::cells(copy)[0])); ensures_true("source_kept", s.size() <= 3);
  for (int i = 0; i < 3; ++i) for (int k = 0; k < 3; ++k) ensures_true("source_membership_kept", !s.segment_present(2 * k + 1) ? !(in[i] & (1 << k)) : viennagrid::is_in_segment(s.get_segment(2 * k + 1), *c[i]) == ((in[i] >> k) & 1));
  cover("end");
}
