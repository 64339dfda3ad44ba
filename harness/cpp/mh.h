// Shared helpers for the metrics harnesses.
#pragma once
#include <algorithm>
#include <functional>
#include <memory>
#include <numeric>
#include <string>
#include <vector>
#include "waymo_open_dataset/label.pb.h"
#include "waymo_open_dataset/metrics/iou.h"
#include "waymo_open_dataset/metrics/matcher.h"
#include "waymo_open_dataset/protos/breakdown.pb.h"
#include "waymo_open_dataset/protos/metrics.pb.h"
#include "vp.h"
using namespace waymo::open_dataset;

// An object whose identity can be recovered from its box (centre_x carries the index).
inline Object MakeObject(int index, Label::Type type, float score = 0.f) {
  Object o;
  auto* b = o.mutable_object()->mutable_box();
  b->set_center_x(index);
  b->set_length(1);
  b->set_width(1);
  b->set_height(1);
  o.mutable_object()->set_type(type);
  o.set_score(score);
  return o;
}
inline int BoxIndex(const Label::Box& b) { return static_cast<int>(b.center_x()); }

struct Table {
  int n, m;
  std::vector<float> v;
  Table(int n, int m) : n(n), m(m), v(n * m, 0.f) {}
  float& at(int i, int j) { return v[i * m + j]; }
  float at(int i, int j) const { return v[i * m + j]; }
};
// all ordered subsets of {0..n-1}
inline std::vector<std::vector<int>> OrderedSubsets(int n) {
  std::vector<std::vector<int>> out;
  std::vector<int> cur;
  std::function<void()> rec = [&]() {
    out.push_back(cur);
    for (int i = 0; i < n; ++i)
      if (std::find(cur.begin(), cur.end(), i) == cur.end()) { cur.push_back(i); rec(); cur.pop_back(); }
  };
  rec();
  return out;
}
inline std::vector<int> ChooseSubset(const char* name, int n) {
  auto all = OrderedSubsets(n);
  return all[vp_choice(name, all.size())];
}
