#pragma once
#include "tree.h"
#include <deque>
#include <fstream>
#include <iterator>
// Builds a fixture through the public interface from a tree, and dumps a fixture through its getters into one.
struct GdtfIO {
  bool setting = false;
  bool editing = false;                 // set values of objects that are there
  std::vector<std::function<void()>> deferred;
  std::map<std::string, void*> objs;
  std::vector<std::string> problems;
  std::vector<IVWUnknown*> keep;
  bool binding = false;                 // first pass of a dump: give every object its token
  bool derived = true;
  bool files = false;                   // also look at the extracted files and the buffers of models
  IGdtfFixture* fx = nullptr;
  ~GdtfIO();
  bool Build(IGdtfFixture* fixture, Node* root);   // after OpenForWrite
  std::unique_ptr<Node> Dump(IGdtfFixture* fixture);
  void Fixture(IGdtfFixture* o, Node* n);
  void Files(IGdtfFixture* f, Node* n);
};
