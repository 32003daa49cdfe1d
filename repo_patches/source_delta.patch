From 2c592a718b8cfa857f54206755dfe999ae6466d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:30 +0000
Subject: [PATCH 01/52] fix: Hitcore.set leaves the hit alone when the value is
 not a number of the stored kind

---
 xboa/core/pylib/PyHitcore.cc | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/xboa/core/pylib/PyHitcore.cc b/xboa/core/pylib/PyHitcore.cc
index 542ebe4..27977ac 100644
--- a/xboa/core/pylib/PyHitcore.cc
+++ b/xboa/core/pylib/PyHitcore.cc
@@ -101,12 +101,25 @@ PyObject* set(PyObject* self, PyObject *args, PyObject *kwds) {
 
     std::string variable_name(variable_name_c_str);
     double value_dbl = PyFloat_AsDouble(py_value);
+    if (PyErr_Occurred() != NULL)
+        return NULL; // not a number; leave the hitcore alone
     if (hc->hitcore_->set_double(variable_name, value_dbl))
         Py_RETURN_NONE; // success, return None
 
-    int value_int = PyLong_AsLong(py_value);
-    if (hc->hitcore_->set_int(variable_name, value_int))
+    int value_int = 0;
+    if (hc->hitcore_->get_int(variable_name, &value_int)) {
+        long value_long = PyLong_AsLong(py_value);
+        if (PyErr_Occurred() != NULL)
+            return NULL; // not an integer; leave the hitcore alone
+        value_int = static_cast<int>(value_long);
+        if (value_int != value_long) {
+            PyErr_SetString(PyExc_OverflowError,
+                            "Integer out of range in Hitcore.set");
+            return NULL;
+        }
+        hc->hitcore_->set_int(variable_name, value_int);
         Py_RETURN_NONE; // success, return None
+    }
 
     PyErr_SetString(PyExc_KeyError, "Did not recognise variable in Hitcore.get");
     return NULL;
-- 
2.43.0


From ca74c5fcf2d0ecadd78deb349f6dc3a88ab6005f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:53 +0000
Subject: [PATCH 02/52] fix: WeightContext.set_weight and get_weight accept the
 keyword names they list and do not read unset numbers

---
 xboa/core/pylib/PyWeightContext.cc | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/xboa/core/pylib/PyWeightContext.cc b/xboa/core/pylib/PyWeightContext.cc
index 1e3f269..3626648 100644
--- a/xboa/core/pylib/PyWeightContext.cc
+++ b/xboa/core/pylib/PyWeightContext.cc
@@ -41,9 +41,8 @@ std::string("\n");
 
 
 // A whole world of pain to make a non-const c-string. There must be an easier way!
-char* cstring(std::string word) {
-    char* dest = const_cast<char*>(word.data());
-    return dest;
+char* cstring(const char* word) { // word must be a literal
+    return const_cast<char*>(word);
 }
 
 typedef WeightContext::HitId HitId;
@@ -82,13 +81,14 @@ PyObject* setWeight(PyObject* self, PyObject *args, PyObject *kwds) {
         return NULL;
     }
     PyWeightContext* pywc = reinterpret_cast<PyWeightContext*>(self);
-    double weight;
-    int spill, event, particle;
+    double weight = 0.;
+    int spill = 0, event = 0, particle = 0;
     std::vector<char*> c_argnames = {
+        cstring("weight"),
         cstring("spill"), cstring("event_number"), cstring("particle_number"),
         cstring("eventNumber"), cstring("particleNumber"), NULL
     };
-    int err = PyArg_ParseTupleAndKeywords(args, kwds, "|diiiii",
+    int err = PyArg_ParseTupleAndKeywords(args, kwds, "d|iiiii",
                &c_argnames[0],
                &weight, &spill, &event, &particle, &event, &particle);
     if(err == 0) {
@@ -108,7 +108,7 @@ PyObject* getWeight(PyObject* self, PyObject *args, PyObject *kwds) {
         return NULL;
     }
     PyWeightContext* pywc = reinterpret_cast<PyWeightContext*>(self);
-    int spill, event, particle;
+    int spill = 0, event = 0, particle = 0;
     std::vector<char*> c_argnames = {
         cstring("spill"), cstring("event_number"), cstring("particle_number"),
         cstring("eventNumber"), cstring("particleNumber"), NULL
-- 
2.43.0


From 0c3077d9907c73427b241b4f8e7418bf8f952c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:12 +0000
Subject: [PATCH 03/52] fix: Hitcore looks its global weight up under (spill,
 event, particle), the order of the weight table

---
 xboa/core/cpplib/Hitcore.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xboa/core/cpplib/Hitcore.hh b/xboa/core/cpplib/Hitcore.hh
index 2f86092..9a60e16 100644
--- a/xboa/core/cpplib/Hitcore.hh
+++ b/xboa/core/cpplib/Hitcore.hh
@@ -436,12 +436,12 @@ Hitcore::get_dbl_function Hitcore::get_double_function(std::string key) {
 }
 
 void Hitcore::set_global_weight(double global_weight) {
-    WeightContext::HitId hitid(spill_, particle_, event_);
+    WeightContext::HitId hitid(spill_, event_, particle_);
     weightContext->setWeight(hitid, global_weight);
 }
 
 double Hitcore::global_weight() {
-    WeightContext::HitId hitid(spill_, particle_, event_);
+    WeightContext::HitId hitid(spill_, event_, particle_);
     double wt = weightContext->getWeight(hitid);
     return wt;
 }
-- 
2.43.0


From e34c6ce3754bba72c612ba5d1566bb587ddf2b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:13 +0000
Subject: [PATCH 04/52] fix: bunch calculations use the weight context selected
 through Hitcore

---
 xboa/core/cpplib/Hitcore.cc    |  4 ++--
 xboa/core/cpplib/Hitcore.hh    |  6 +++---
 xboa/core/pylib/PyBunchcore.cc | 12 ------------
 xboa/core/pylib/PyHitcore.cc   |  7 +++++--
 xboa/core/pylib/PyHitcore.hh   |  6 ++++++
 5 files changed, 16 insertions(+), 19 deletions(-)

diff --git a/xboa/core/cpplib/Hitcore.cc b/xboa/core/cpplib/Hitcore.cc
index 1aa2482..ef01c0b 100644
--- a/xboa/core/cpplib/Hitcore.cc
+++ b/xboa/core/cpplib/Hitcore.cc
@@ -25,11 +25,11 @@ std::map<std::string, Hitcore::get_int_function> Hitcore::get_int_map;
 std::map<std::string, Hitcore::get_dbl_function> Hitcore::get_dbl_map;
 std::map<std::string, Hitcore::set_int_function> Hitcore::set_int_map;
 std::map<std::string, Hitcore::set_dbl_function> Hitcore::set_dbl_map;
-SmartPointer<WeightContext>& Hitcore::weightContext = *(new SmartPointer<WeightContext>());
+SmartPointer<WeightContext>* Hitcore::weightContext = new SmartPointer<WeightContext>();
 
 
 void Hitcore::clear_global_weights() {
-    weightContext->clearWeights();
+    (*weightContext)->clearWeights();
 }
 
 Hitcore::Hitcore()
diff --git a/xboa/core/cpplib/Hitcore.hh b/xboa/core/cpplib/Hitcore.hh
index 9a60e16..e01dc4a 100644
--- a/xboa/core/cpplib/Hitcore.hh
+++ b/xboa/core/cpplib/Hitcore.hh
@@ -335,7 +335,7 @@ class Hitcore {
     /** Print the global weights map */
     static void print_global_weights(std::ostream& out);
 
-    static SmartPointer<WeightContext>& weightContext;
+    static SmartPointer<WeightContext>* weightContext;
 
   private:
     double x_;
@@ -437,12 +437,12 @@ Hitcore::get_dbl_function Hitcore::get_double_function(std::string key) {
 
 void Hitcore::set_global_weight(double global_weight) {
     WeightContext::HitId hitid(spill_, event_, particle_);
-    weightContext->setWeight(hitid, global_weight);
+    (*weightContext)->setWeight(hitid, global_weight);
 }
 
 double Hitcore::global_weight() {
     WeightContext::HitId hitid(spill_, event_, particle_);
-    double wt = weightContext->getWeight(hitid);
+    double wt = (*weightContext)->getWeight(hitid);
     return wt;
 }
 
diff --git a/xboa/core/pylib/PyBunchcore.cc b/xboa/core/pylib/PyBunchcore.cc
index ceba265..654c17e 100644
--- a/xboa/core/pylib/PyBunchcore.cc
+++ b/xboa/core/pylib/PyBunchcore.cc
@@ -526,17 +526,6 @@ static struct PyModuleDef bunchcoredef = {
     NULL,                /* m_free */
 };
 
-void setWeightContext() {
-    PyObject* hc_module = PyImport_ImportModule("xboa.core._hitcore");
-    PyObject* hc_class = PyObject_GetAttrString(hc_module, "Hitcore");
-    PyObject* get_context = PyObject_GetAttrString(hc_class, "get_weight_context");
-    PyObject* empty_tuple = PyTuple_New(0);
-    PyObject* pyobj_wc = PyObject_CallObject(get_context, empty_tuple);
-    PyWeightContext::PyWeightContext* pywc = reinterpret_cast<PyWeightContext::PyWeightContext*>(pyobj_wc);
-    Hitcore::weightContext = pywc->cppcontext_;
-}
-
-
 PyMODINIT_FUNC PyInit__bunchcore(void) {
     PyBunchcoreType.tp_new = PyType_GenericNew;
     if (PyType_Ready(&PyBunchcoreType) < 0) {
@@ -566,7 +555,6 @@ PyMODINIT_FUNC PyInit__bunchcore(void) {
     PyDict_SetItemString(bc_dict, "C_API_CREATE_EMPTY_BUNCHCORE", ceb_c_api);
     PyDict_SetItemString(bc_dict, "C_API_GET_BUNCHCORE", gbc_c_api);
     PyDict_SetItemString(bc_dict, "C_API_SET_BUNCHCORE", sbc_c_api);
-    setWeightContext();
     return module;
 }
 
diff --git a/xboa/core/pylib/PyHitcore.cc b/xboa/core/pylib/PyHitcore.cc
index 27977ac..9dd58e2 100644
--- a/xboa/core/pylib/PyHitcore.cc
+++ b/xboa/core/pylib/PyHitcore.cc
@@ -180,7 +180,7 @@ PyObject* setWeightContext(PyObject* cls, PyObject *args) {
     PyWeightContext::PyWeightContext* pywc = reinterpret_cast<PyWeightContext::PyWeightContext*>(pyobj);
     SmartPointer<WeightContext> contextPtr = pywc->cppcontext_;
     pyCurrentContext->cppcontext_.set(contextPtr.get());
-    Hitcore::weightContext.set(contextPtr.get());
+    Hitcore::weightContext->set(contextPtr.get());
     Py_RETURN_NONE; // success, return None
 }
 
@@ -341,7 +341,7 @@ void setWeightContext() {
     PyObject* empty_tuple = PyTuple_New(0);
     PyObject* pyobj_wc = PyObject_CallObject(wc_class, empty_tuple); // init
     PyWeightContext::PyWeightContext* pywc = reinterpret_cast<PyWeightContext::PyWeightContext*>(pyobj_wc);
-    Hitcore::weightContext = pywc->cppcontext_;
+    *Hitcore::weightContext = pywc->cppcontext_;
     pyCurrentContext =  pywc;
 }
 
@@ -404,11 +404,14 @@ PyMODINIT_FUNC PyInit__hitcore(void) {
     //                            (hitcore_global_weights_context), NULL, NULL);
     PyObject* spc_c_api = PyCapsule_New(reinterpret_cast<void*>
                                 (hitcore_smartpointer_context), NULL, NULL);
+    PyObject* wc_c_api = PyCapsule_New(reinterpret_cast<void*>
+                                (Hitcore::weightContext), NULL, NULL);
     PyDict_SetItemString(hc_dict, "C_API_CREATE_EMPTY_HITCORE", ceh_c_api);
     PyDict_SetItemString(hc_dict, "C_API_GET_HITCORE", ghc_c_api);
     PyDict_SetItemString(hc_dict, "C_API_SET_HITCORE", shc_c_api);
     PyDict_SetItemString(hc_dict, "C_API_CHECK", check_c_api);
     PyDict_SetItemString(hc_dict, "C_API_SMARTPOINTER_CONTEXT", spc_c_api);
+    PyDict_SetItemString(hc_dict, "C_API_WEIGHT_CONTEXT", wc_c_api);
     setWeightContext();
     return module;
 }
diff --git a/xboa/core/pylib/PyHitcore.hh b/xboa/core/pylib/PyHitcore.hh
index f32aed5..f24ac74 100644
--- a/xboa/core/pylib/PyHitcore.hh
+++ b/xboa/core/pylib/PyHitcore.hh
@@ -229,6 +229,12 @@ int xboa::core::PyHitcore::import_PyHitcore() {
                 reinterpret_cast< std::map<Hitcore*, std::size_t>*>(spc_void);
     SmartPointer<Hitcore>::set_context(spc);
 
+    // use the weight context that is selected through Hitcore
+    PyObject* wc_c_api = PyDict_GetItemString(hc_dict, "C_API_WEIGHT_CONTEXT");
+    void* wc_void = PyCapsule_GetPointer(wc_c_api, NULL);
+    Hitcore::weightContext =
+                       reinterpret_cast<SmartPointer<WeightContext>*>(wc_void);
+
     if ((create_empty_hitcore == NULL) ||
         (set_hitcore == NULL) ||
         (check == NULL) ||
-- 
2.43.0


From 8f05bba52e0cd17316986bb94b2c1568a549e53c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:44 +0000
Subject: [PATCH 05/52] fix: Bunch item assignment and deletion keep the core
 in step for negative, out of range and deleted indices

---
 xboa/bunch/_bunch.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/xboa/bunch/_bunch.py b/xboa/bunch/_bunch.py
index 7cef33f..160f182 100644
--- a/xboa/bunch/_bunch.py
+++ b/xboa/bunch/_bunch.py
@@ -122,13 +122,15 @@ class Bunch:
   
   def __setitem__(self, key, value):
     """Called by subscript operator, sets the key^th hit in the bunch"""
-    self.__hits[key] = value
-    self.__bunchcore.set_item(value._Hit__hitcore, key)
+    index = range(len(self.__hits))[key] # IndexError if key is out of range
+    self.__bunchcore.set_item(value._Hit__hitcore, index)
+    self.__hits[index] = value
 
   def __delitem__(self, key):
     """Called by remove method, deletes the key^th hit in the bunch"""
-    self.__hits.__delitem__(key)
-    self.__bunchcore.__delitem__(key)
+    index = range(len(self.__hits))[key] # IndexError if key is out of range
+    self.__bunchcore.del_item(index)
+    self.__hits.__delitem__(index)
 
   def __del__(self):
     """Called by del"""
-- 
2.43.0


From 15f1fa7650fc8305bc73fc8c32b3deca95ad1605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:41 +0000
Subject: [PATCH 06/52] fix: an index too large for the core is reported as an
 IndexError

---
 xboa/core/utils/TypeConversions-inl.hh | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xboa/core/utils/TypeConversions-inl.hh b/xboa/core/utils/TypeConversions-inl.hh
index 31bffcb..a6d714a 100644
--- a/xboa/core/utils/TypeConversions-inl.hh
+++ b/xboa/core/utils/TypeConversions-inl.hh
@@ -24,6 +24,10 @@ bool PyCppIndexConverter::convert(PyObject* py_int, size_t* index) const {
         return false;
     }
     Py_ssize_t py_index = PyLong_AsSsize_t(py_int);
+    if (py_index == -1 && PyErr_Occurred()) {
+        PyErr_SetString(PyExc_IndexError, "Index out of range");
+        return false;
+    }
     if (py_index < 0) {
         *index = abs(py_index+1);
     } else {
-- 
2.43.0


From f85528e5cd1bf49fea0b885bd9b6e907a33a1fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:41 +0000
Subject: [PATCH 07/52] fix: Bunchcore.cut_double holds the hit while the
 comparator runs

---
 xboa/core/cpplib/Bunchcore.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xboa/core/cpplib/Bunchcore.cc b/xboa/core/cpplib/Bunchcore.cc
index e022861..185e4a6 100644
--- a/xboa/core/cpplib/Bunchcore.cc
+++ b/xboa/core/cpplib/Bunchcore.cc
@@ -230,7 +230,9 @@ bool Bunchcore::cut_double(const std::string cut_variable,
         return false;
     // iterate over the hitcores, cutting
     for (size_t i = 0; i < hitcores_.size(); ++i) {
-        Hitcore* hc = hitcores_[i].get();
+        // hold the hit, the comparator may change the bunch
+        SmartPointer<Hitcore> hit = hitcores_[i];
+        Hitcore* hc = hit.get();
         // ignore NULLs
         if (hc == NULL)
             continue;
-- 
2.43.0


From 37b9100b467777f00f97a828e6eaca0c313780cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:42 +0000
Subject: [PATCH 08/52] fix: the core releases the temporary Python objects it
 makes for conversions

---
 xboa/core/pylib/PyBunchcore.cc         | 4 +---
 xboa/core/utils/PythonComparator.hh    | 6 +++++-
 xboa/core/utils/TypeConversions-inl.hh | 9 ++++++---
 3 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/xboa/core/pylib/PyBunchcore.cc b/xboa/core/pylib/PyBunchcore.cc
index 654c17e..1e6b6ef 100644
--- a/xboa/core/pylib/PyBunchcore.cc
+++ b/xboa/core/pylib/PyBunchcore.cc
@@ -242,9 +242,7 @@ PyObject* moment(PyObject* self, PyObject *args, PyObject *kwds) {
     }
 
     // return
-    PyObject* py_moment = PyFloat_FromDouble(moment);
-    Py_INCREF(py_moment);
-    return py_moment;
+    return PyFloat_FromDouble(moment);
 }
 
 
diff --git a/xboa/core/utils/PythonComparator.hh b/xboa/core/utils/PythonComparator.hh
index 74b8f6a..e591803 100644
--- a/xboa/core/utils/PythonComparator.hh
+++ b/xboa/core/utils/PythonComparator.hh
@@ -63,12 +63,16 @@ bool PythonComparator::compare(double variable, double cut_value) const {
         return false;
     PyObject *args = Py_BuildValue("dd", variable, cut_value);
     PyObject *ret_bool = PyObject_CallObject(py_cmp_, args);
+    Py_XDECREF(args);
     if (ret_bool == NULL || !PyBool_Check(ret_bool)) {
+        Py_XDECREF(ret_bool);
         throw std::logic_error("Failed to call python comparator");
     }
     // I could check ret_bool using PyBool_Check I guess, and set a failflag in
     // the class
-    return ret_bool == Py_True;
+    bool is_true = ret_bool == Py_True;
+    Py_DECREF(ret_bool);
+    return is_true;
 }
 
 }
diff --git a/xboa/core/utils/TypeConversions-inl.hh b/xboa/core/utils/TypeConversions-inl.hh
index a6d714a..1788af3 100644
--- a/xboa/core/utils/TypeConversions-inl.hh
+++ b/xboa/core/utils/TypeConversions-inl.hh
@@ -47,6 +47,7 @@ bool PyCppStringConverter::convert(PyObject* py_string,
         PyObject* bytes = PyUnicode_AsASCIIString(py_string);
         if (bytes) {
             *cpp_string = std::string(PyBytes_AsString(bytes));
+            Py_DECREF(bytes);
             return true;
         }
     }
@@ -137,13 +138,14 @@ bool CppPyMapToDictConverter<KEY, VALUE>::convert(
         PyErr_SetString(PyExc_RuntimeError, "Failed to allocate dict");
         return false;
     }
-    Py_INCREF(*py_dict);
     typename std::map<KEY, VALUE>::const_iterator it;
     for (it = std_map->begin(); it != std_map->end(); ++it) {
         PyObject *py_key, *py_value;
         if (key_c_->convert(&it->first, &py_key) &&
             value_c_->convert(&it->second, &py_value)) {
             PyDict_SetItem(*py_dict, py_key, py_value);
+            Py_DECREF(py_key); // the dict holds its own references
+            Py_DECREF(py_value);
         } else {
             return false;
         }
@@ -175,14 +177,15 @@ bool CppPyVectorToListConverter<ELEMENT>::convert(
     }
 
     *py_list = PyList_New(0);
-    Py_INCREF(*py_list);
     for (size_t i = 0; i < std_vector->size(); ++i) {
         ELEMENT element = std_vector->at(i);
         PyObject* py_element;
         if (!converter_->convert(&element, &py_element)) {
             return false;
         }
-        if (PyList_Append(*py_list, py_element) != 0) {
+        int append_error = PyList_Append(*py_list, py_element);
+        Py_DECREF(py_element); // the list holds its own reference
+        if (append_error != 0) {
             PyErr_SetString(PyExc_RuntimeError,
                             "Failed to append element");
             return false;
-- 
2.43.0


From 6393b1f0f53b21065d45d2465afbd6eab68c7baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:36 +0000
Subject: [PATCH 09/52] fix: WeightContext arithmetic releases the float it
 makes of a number

---
 xboa/core/pylib/PyWeightContext.cc | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/xboa/core/pylib/PyWeightContext.cc b/xboa/core/pylib/PyWeightContext.cc
index 3626648..606e1da 100644
--- a/xboa/core/pylib/PyWeightContext.cc
+++ b/xboa/core/pylib/PyWeightContext.cc
@@ -192,17 +192,19 @@ void _free(PyWeightContext * self) {
     }
 }
 
-int parseArg(PyObject* o1, PyObject** f1, PyWeightContext** pywc1) {
-    *f1 = PyNumber_Float(o1);
+int parseArg(PyObject* o1, double* d1, PyWeightContext** pywc1) {
+    PyObject* f1 = PyNumber_Float(o1);
     *pywc1 = reinterpret_cast<PyWeightContext*>(o1);
-    if (*f1 == nullptr) {
+    if (f1 == nullptr) {
         PyErr_Clear();
         if (!C_API::is_PyWeightContext(o1)) {
             PyErr_SetString(PyExc_NotImplementedError, "Not able to add these object types");
             return 0;
         }
     } else {
+        *d1 = PyFloat_AsDouble(f1);
         *pywc1 = nullptr; // it's a float after all
+        Py_DECREF(f1);
     }
     return 1;
 }
@@ -224,12 +226,12 @@ PyObject *unary_operator(PyObject *o1) {
 
 template <class BinaryOperator>
 PyObject *binary_operator(PyObject *o1, PyObject *o2) {
-    PyObject *f1, *f2;
+    double d1 = 0., d2 = 0.;
     PyWeightContext *pywc1, *pywc2;
-    if (parseArg(o1, &f1, &pywc1) == 0) {
+    if (parseArg(o1, &d1, &pywc1) == 0) {
         return nullptr;
     }
-    if (parseArg(o2, &f2, &pywc2) == 0) {
+    if (parseArg(o2, &d2, &pywc2) == 0) {
         return nullptr;
     }
 
@@ -244,7 +246,6 @@ PyObject *binary_operator(PyObject *o1, PyObject *o2) {
     if (pywc1 != nullptr) {
         WeightContext* wc1 = pywc1->cppcontext_.get();
         if (pywc2 == nullptr) {
-            double d2 = PyFloat_AsDouble(f2);
             wc3 = op.operate(*wc1, d2);
         } else {
             WeightContext* wc2 = pywc2->cppcontext_.get();
@@ -253,7 +254,6 @@ PyObject *binary_operator(PyObject *o1, PyObject *o2) {
     } else {
         WeightContext* wc2 = pywc2->cppcontext_.get();
         if (pywc1 == nullptr) {
-            double d1 = PyFloat_AsDouble(f1);
             try {
                 wc3 = op.operate(d1, *wc2);
             } catch (...) {
-- 
2.43.0


From 85e5719633cb02bf6cce723370a59f644c5e9753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:01 +0000
Subject: [PATCH 10/52] fix: a bunch with an internal covariance matrix does
 not compare the matrix with None

---
 xboa/bunch/_bunch.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/xboa/bunch/_bunch.py b/xboa/bunch/_bunch.py
index 160f182..cd4fd4e 100644
--- a/xboa/bunch/_bunch.py
+++ b/xboa/bunch/_bunch.py
@@ -84,7 +84,7 @@ class Bunch:
   def __repr__(self):
     """Return a long string that contains data in every hit"""
     covs = 'None'
-    if self.__covs != None:
+    if self.__covs is not None:
       covs = 'numpy.'+repr(self.__covs)
     out = 'Bunch.new_from_hits( ['
     for hit in self.__hits:
@@ -683,7 +683,7 @@ class Bunch:
     """
     bunch_weight = self.bunch_weight()
     if abs(bunch_weight) < 1e-9: raise ZeroDivisionError('Trying to find moment of bunch with 0 weight')
-    if self.__covs != None and len(variable_list) == 2:
+    if self.__covs is not None and len(variable_list) == 2:
       axis_list = Bunch.axis_list_to_covariance_list(Bunch.__axis_list)
       try:
         i1 = axis_list.index(variable_list[0])
@@ -772,7 +772,7 @@ class Bunch:
     As a speed optimisation, x-boa can calculate a covariance matrix and use this for all calculations involving covariances, i.e. Twiss parameters, emittances, amplitudes etc. Otherwise x-boa will re-calculate this each time, which can be slow. Be careful though - x-boa does not automatically detect for hits being added or removed from the bunch, etc. The user must call this function each time the bunch changes (events added, weightings changed, etc) to update the internal covariance matrix
     """
     if use_internal_covariance_matrix:
-      if covariance_matrix == None:
+      if covariance_matrix is None:
         self.__covs = self.covariance_matrix(Bunch.axis_list_to_covariance_list(Bunch.__axis_list))
       else: self.__covs = covariance_matrix
       if mean_dict == {}:
@@ -784,7 +784,7 @@ class Bunch:
 
   def covariances_set(self):
     """If internal covariances are set by set_covariance_matrix, return True; else return False"""
-    return self.__covs != None
+    return self.__covs is not None
 
 
   def means_set(self):
@@ -1027,9 +1027,9 @@ class Bunch:
         coupled_axis_list2.append(ax) #build sorted list of coupled variables
     cov_var_list  = Bunch.axis_list_to_covariance_list(coupled_axis_list2)
     my_cov    = copy.deepcopy(covariance_matrix)
-    if my_cov == None:
+    if my_cov is None:
       my_cov = self.__cov_mat_picker(coupled_axis_list2)
-      if my_cov == None: 
+      if my_cov is None: 
         my_cov = self.covariance_matrix(cov_var_list)
     (evalues, ematrix) = numpy.linalg.eig(my_cov)
     ematrix = matrix(ematrix)
@@ -1882,7 +1882,7 @@ class Bunch:
 
   def __cov_mat_picker(self, axis_list):
     config.has_numpy()
-    if self.__covs == None: return None
+    if self.__covs is None: return None
     covs      = numpy.zeros( (2*len(axis_list),2*len(axis_list) ))
     ind = []
     for axis in axis_list:
-- 
2.43.0


From 868572da488fb4a460d78e3e9c2014099ffda0da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:53 +0000
Subject: [PATCH 11/52] fix: moments take a variable whose centre is not given
 about its mean, and refuse a bunch without weight in the core

---
 xboa/bunch/_bunch.py          |  7 ++++--
 xboa/core/cpplib/Bunchcore.cc | 40 +++++++++++++++++++++++++++--------
 xboa/core/cpplib/Bunchcore.hh |  6 ++++++
 3 files changed, 42 insertions(+), 11 deletions(-)

diff --git a/xboa/bunch/_bunch.py b/xboa/bunch/_bunch.py
index cd4fd4e..503dd42 100644
--- a/xboa/bunch/_bunch.py
+++ b/xboa/bunch/_bunch.py
@@ -691,8 +691,11 @@ class Bunch:
         return float(self.__covs[i1,i2]) # not numpy.float64
       except ValueError:
         pass
-    if variable_mean_dict == {}:
-      variable_mean_dict = self.mean(variable_list)
+    missing = [var for var in variable_list if var not in variable_mean_dict]
+    if len(missing) > 0:
+      missing_means = self.mean(missing)
+      missing_means.update(variable_mean_dict)
+      variable_mean_dict = missing_means
     try:
       moment = self.__bunchcore.moment(variable_list, variable_mean_dict)
       return moment
diff --git a/xboa/core/cpplib/Bunchcore.cc b/xboa/core/cpplib/Bunchcore.cc
index 185e4a6..3ef7bf0 100644
--- a/xboa/core/cpplib/Bunchcore.cc
+++ b/xboa/core/cpplib/Bunchcore.cc
@@ -43,6 +43,23 @@ bool Bunchcore::del_item(size_t i) {
 }
 
 
+double Bunchcore::get_mean(Hitcore::get_dbl_function function,
+                           const std::string& axis,
+                           const std::map<std::string, double>& means,
+                           double weight_sum) {
+    std::map<std::string, double>::const_iterator it = means.find(axis);
+    if (it != means.end())
+        return it->second;
+    double mean = 0.;
+    for(size_t i = 0; i < hitcores_.size(); ++i) {
+        Hitcore* hc = hitcores_[i].get();
+        if (hc == NULL)
+            continue;
+        mean += hc->total_weight()/weight_sum*(*hc.*function)();
+    }
+    return mean;
+}
+
 bool Bunchcore::get_moment(std::vector<std::string> axes,
             std::map<std::string, double> means,
             double* moment) {
@@ -56,15 +73,17 @@ bool Bunchcore::get_moment(std::vector<std::string> axes,
         if (function_vector[i] == NULL)
             return false;
     }
-    // extract means (assume mean map is filled)
+    // get sum of weights
+    double weight_sum = bunch_weight();
+    if (fabs(weight_sum) < 1e-15)
+        return false;
+
+    // extract means; calculate any that are missing
     std::vector<double> mean_vector(axes.size());
     for (size_t i = 0; i < axes.size(); ++i) {
-        mean_vector[i] = means[axes[i]];
+        mean_vector[i] = get_mean(function_vector[i], axes[i], means, weight_sum);
     }
 
-    // get sum of weights
-    double weight_sum = bunch_weight();
-
     //extract moments
     *moment = 0.;
     for(size_t i = 0; i < hitcores_.size(); ++i) {
@@ -96,13 +115,16 @@ bool Bunchcore::covariance_matrix(std::vector<std::string> axes,
         if (function_vector[i] == NULL)
             return false;
     }
-    // extract means (assume mean map is filled)
+    // get sum of weights
+    double weight_sum = bunch_weight();
+    if (fabs(weight_sum) < 1e-15)
+        return false;
+
+    // extract means; calculate any that are missing
     std::vector<double> mean_vector(n_axes);
     for (size_t i = 0; i < n_axes; ++i) {
-        mean_vector[i] = means[axes[i]];
+        mean_vector[i] = get_mean(function_vector[i], axes[i], means, weight_sum);
     }
-    // get sum of weights
-    double weight_sum = bunch_weight();
 
     for(size_t i = 0; i < hitcores_.size(); ++i) {
         Hitcore* hc = hitcores_[i].get();
diff --git a/xboa/core/cpplib/Bunchcore.hh b/xboa/core/cpplib/Bunchcore.hh
index fb4572e..59f48de 100644
--- a/xboa/core/cpplib/Bunchcore.hh
+++ b/xboa/core/cpplib/Bunchcore.hh
@@ -147,6 +147,12 @@ public:
 private:
     std::vector< SmartPointer<Hitcore> > hitcores_;
 
+    /** Return the mean of axis from means, or calculate it if not in means */
+    double get_mean(Hitcore::get_dbl_function function,
+                    const std::string& axis,
+                    const std::map<std::string, double>& means,
+                    double weight_sum);
+
     static std::vector<std::vector<size_t> > get_index_by_power_recurse(
                                     size_t max_size,
                                     size_t axis,
-- 
2.43.0


From fd58815500162880f25b7c999d1869d365d18213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:12 +0000
Subject: [PATCH 12/52] fix: conditional_remove in standard deviations uses the
 standard deviation, not its root

---
 xboa/bunch/_bunch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xboa/bunch/_bunch.py b/xboa/bunch/_bunch.py
index 503dd42..d2a1734 100644
--- a/xboa/bunch/_bunch.py
+++ b/xboa/bunch/_bunch.py
@@ -629,7 +629,7 @@ class Bunch:
     """
     for variable, cut_value in variable_value_dict.items():
       if(value_is_nsigma_bool):
-        cut_value *= self.standard_deviation(variable, self.mean([variable]))**0.5
+        cut_value *= self.standard_deviation(variable, self.mean([variable]))
       # optimisation for amplitude cut: calculate covariance matrix first
       # optimisation for gt/lt: sort the hit_value_list first then cut
       hit_value_list = self.list_get_hit_variable([variable])[0]
-- 
2.43.0


From 3fb3b55a52e2d9d56c8bceb84d315561c5ce9b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:12 +0000
Subject: [PATCH 13/52] fix: transmission_cut also looks at the partner just
 below the hit

---
 xboa/bunch/_bunch.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xboa/bunch/_bunch.py b/xboa/bunch/_bunch.py
index d2a1734..c8b2c1c 100644
--- a/xboa/bunch/_bunch.py
+++ b/xboa/bunch/_bunch.py
@@ -881,6 +881,10 @@ class Bunch:
         diff = [abs(hit_list[next_value][i]-hit_value[i]) for i in range(len(hit_value))]
         diff = sum(diff)
         if diff < float_tolerance:   weight = hit[wt]
+      if next_value > 0:
+        diff = [abs(hit_list[next_value-1][i]-hit_value[i]) for i in range(len(hit_value))]
+        diff = sum(diff)
+        if diff < float_tolerance: weight = hit[wt]
       if next_value+1 < len(hit_list):
         diff = [abs(hit_list[next_value+1][i]-hit_value[i]) for i in range(len(hit_value))]
         diff = sum(diff)
-- 
2.43.0


From 93e094b99f602b8995b6ad414336ef0ce8bbbdcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:56 +0000
Subject: [PATCH 14/52] fix: writing t' turns pz round when the energy comes
 out negative, not whenever pz is negative

---
 xboa/hit/_hit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xboa/hit/_hit.py b/xboa/hit/_hit.py
index 1c17067..d2a976b 100644
--- a/xboa/hit/_hit.py
+++ b/xboa/hit/_hit.py
@@ -647,7 +647,7 @@ class Hit(object):
     """Set t\' (dt/dz=-E/pz) to value_float keeping pz constant; note sign of pz may change"""
     if(math.fabs(self['pz']) < 1e-9): raise FloatingPointError('Cant set t\' while pz is 0')
     self['energy'] = -value_float*self['pz']
-    if self['pz'] < 0.: 
+    if self['energy'] < 0.: 
       self['energy'] *= -1.
       self['pz']     *= -1.
     if self['energy'] < self.get('mass'): raise FloatingPointError('Energy less than muon mass')
-- 
2.43.0


From d2288f7455974385ac12f76186a72f35a30ffa80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:56 +0000
Subject: [PATCH 15/52] fix: mass_shell_condition('p') sets zero momentum and
 returns False when the energy is below the mass

---
 xboa/hit/_hit.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/xboa/hit/_hit.py b/xboa/hit/_hit.py
index d2a976b..1a429ce 100644
--- a/xboa/hit/_hit.py
+++ b/xboa/hit/_hit.py
@@ -303,7 +303,11 @@ class Hit(object):
     e  = self.get('energy')
     m  = self.get('mass')
     if(variable_string == 'p'):
-      self.set('p',  ( (e-m)*(e+m) )**0.5 )
+      p_squared = (e-m)*(e+m)
+      if p_squared < 0.:
+        self.set('p', 0.)
+        return False
+      self.set('p', p_squared**0.5)
     elif(variable_string == 'px'):#get direction right!
       val = (e*e-m*m-py*py-pz*pz)
       if val>float_tolerance:
-- 
2.43.0


From 9e1adc4ee8c469c8016de4fa7f964dcadd0aa17c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:45 +0000
Subject: [PATCH 16/52] fix: transform_to translates the variables outside its
 transform list too, as documented

---
 xboa/bunch/_bunch.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xboa/bunch/_bunch.py b/xboa/bunch/_bunch.py
index c8b2c1c..239ceca 100644
--- a/xboa/bunch/_bunch.py
+++ b/xboa/bunch/_bunch.py
@@ -559,7 +559,8 @@ class Bunch:
     transform  = ununite*unite
     power      = 1./float(len(transform_list))
     transform  = transform/(abs(linalg.det(transform))**power)
-    self.abelian_transformation(transform_list, transform, translation_dict, origin_dict, mass_shell_variable)
+    self.abelian_transformation(transform_list, transform, {}, origin_dict, '')
+    self.translate(translation_dict, mass_shell_variable)
   
   def period_transformation(self, offset, frequency, variable='t'):
     """
-- 
2.43.0


From 65d3fe9125cee3e187a9a8974ba88137653ed4fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:17 +0000
Subject: [PATCH 17/52] fix: emittance, alpha, gamma and amplitude follow their
 geometric argument instead of the class default

---
 xboa/bunch/_bunch.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/xboa/bunch/_bunch.py b/xboa/bunch/_bunch.py
index 239ceca..2f2dec6 100644
--- a/xboa/bunch/_bunch.py
+++ b/xboa/bunch/_bunch.py
@@ -939,7 +939,7 @@ class Bunch:
     """
     if geometric == None: geometric = Bunch.__geometric_momentum
     gamma     = 0.0
-    emittance = self.get_emittance(axis_list)
+    emittance = self.get_emittance(axis_list, None, geometric)
     for axis in axis_list:
       mom    = self.momentum_variable(axis, geometric)
       gamma += self.moment([mom,mom], self.mean([mom]))
@@ -967,7 +967,7 @@ class Bunch:
     """
     if geometric == None: geometric = Bunch.__geometric_momentum
     alpha     = 0.0
-    emittance = self.get_emittance(axis_list)
+    emittance = self.get_emittance(axis_list, None, geometric)
     for axis in axis_list:
       mom    = self.momentum_variable(axis, geometric)
       alpha += self.moment([axis,mom], self.mean([axis, mom]))
@@ -1114,14 +1114,15 @@ class Bunch:
     and |V| is the determinant.
     """
     if geometric is None: geometric = Bunch.__geometric_momentum
-    cov_list  = Bunch.axis_list_to_covariance_list(axis_list)
+    cov_list  = Bunch.axis_list_to_covariance_list(axis_list, geometric)
     my_cov    = copy.deepcopy(covariance_matrix)
     if my_cov is None:
-      my_cov = self.__cov_mat_picker(axis_list)
+      if geometric == Bunch.__geometric_momentum: # what the internal matrix is made of
+        my_cov = self.__cov_mat_picker(axis_list)
       if my_cov is None: 
         my_cov = self.covariance_matrix(cov_list)
     emittance = linalg.det(my_cov)**(1./len(cov_list))
-    if not Bunch.__geometric_momentum:
+    if not geometric:
       emittance /= self.__hits[0].get('mass')
     return float(emittance)
   
@@ -1198,17 +1199,19 @@ class Bunch:
     if geometric == None: geometric = Bunch.__geometric_momentum
     cov_list  = Bunch.axis_list_to_covariance_list(axis_list, geometric)
     if mean_dict == {}:   
-      mean_dict = bunch.__mean_picker(axis_list)
+      if geometric == Bunch.__geometric_momentum: # what the internal means are made of
+        mean_dict = bunch.__mean_picker(axis_list)
       if mean_dict == {}:
         mean_dict = bunch.mean(cov_list)
     my_vector = hit.get_vector(cov_list, mean_dict)
     my_cov    = copy.deepcopy( covariance_matrix )
     if my_cov is None:
-      my_cov = bunch.__cov_mat_picker(axis_list)
+      if geometric == Bunch.__geometric_momentum: # what the internal matrix is made of
+        my_cov = bunch.__cov_mat_picker(axis_list)
       if my_cov is None:
         my_cov = bunch.covariance_matrix(cov_list)
     my_amp = my_vector*linalg.inv(my_cov)*my_vector.T
-    return float(my_amp[0,0])*bunch.get_emittance(axis_list, my_cov)
+    return float(my_amp[0,0])*bunch.get_emittance(axis_list, my_cov, geometric)
   get_amplitude = staticmethod(get_amplitude)
 
   def axis_list_to_covariance_list(axis_list, geometric=None):
-- 
2.43.0


From 20afc20b745918c0d890d9edc39436fcc8367d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:06 +0000
Subject: [PATCH 18/52] fix: copying or restoring a hit no longer sets the
 global weight of particle (0, 0, 0)

---
 xboa/hit/_hit.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/xboa/hit/_hit.py b/xboa/hit/_hit.py
index 1a429ce..42826ae 100644
--- a/xboa/hit/_hit.py
+++ b/xboa/hit/_hit.py
@@ -145,7 +145,8 @@ class Hit(object):
     e.g. myHit = Hit.new_from_dict({'x':5, 'y':0, 'z':100, 'px':0, 'py':5, 'pz':200, 'pid':-13}, 'energy' )
     """
     my_hit = Hit()
-    for k,v in set_dict.items():
+    # the global weight belongs to a particle, so set it when the hit is identified
+    for k,v in sorted(set_dict.items(), key=lambda item: item[0] == 'global_weight'):
       my_hit.set(k, v)
     if(mass_shell_string != ''):
       my_hit.mass_shell_condition(mass_shell_string)
@@ -714,7 +715,8 @@ class Hit(object):
     Sets self to be equal to new_from_dict(state)
     """
     self.__init__()
-    for k,v in state.items():
+    # the global weight belongs to a particle, so set it when the hit is identified
+    for k,v in sorted(state.items(), key=lambda item: item[0] == 'global_weight'):
       self.set(k, v)
 
   #write formatted output - don't touch mass or pid beyond reading them
-- 
2.43.0


From 6b01e21faca0a0ec87910e6181818e60dd221f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:06 +0000
Subject: [PATCH 19/52] fix: bunches with an internal covariance matrix are
 compared hit by hit too, and hit_equality uses its tolerance

---
 xboa/bunch/_bunch.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/xboa/bunch/_bunch.py b/xboa/bunch/_bunch.py
index 2f2dec6..4564fcc 100644
--- a/xboa/bunch/_bunch.py
+++ b/xboa/bunch/_bunch.py
@@ -142,16 +142,12 @@ class Bunch:
     """Return true if all hits in self are the same as all hits in target, and set_covariance_matrix data are the same"""
     if type(target)      != type(self):          return False
     if len(self.__hits)  != len(target.__hits):  return False
+    if len(self.__means) != len(target.__means): return False
     for key,value in self.__means.items():
       if not key in target.__means:                                      return False
       if abs(self.__means[key] - target.__means[key]) > float_tolerance: return False
-    try:
-      if not all(self.__covs == target.__covs): return False
-    except:
-      try:
-        if self.__covs != target.__covs: return False 
-      except:
-        return True
+    if (self.__covs is None) != (target.__covs is None): return False
+    if self.__covs is not None and not numpy.array_equal(self.__covs, target.__covs): return False
     for index in range(len(self.__hits)):
       if self.__hits[index].__ne__( target.__hits[index], float_tolerance): return False
     return True
@@ -610,7 +606,7 @@ class Bunch:
     """
     if len(self) != len(target): return False
     for i in range( len(self) ):
-      if self[i] != target[i]: return False
+      if self[i].__ne__(target[i], float_tolerance): return False
     return True
 
   def conditional_remove(self, variable_value_dict, comparator, value_is_nsigma_bool = False):
-- 
2.43.0


From 0850fbc58011f5bd9960e47ac1e8b54058c3d161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:07 +0000
Subject: [PATCH 20/52] fix: a bunch is deep copied from its hits, not from its
 printed form, which cannot hold inf or nan

---
 xboa/bunch/_bunch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xboa/bunch/_bunch.py b/xboa/bunch/_bunch.py
index 4564fcc..7073df4 100644
--- a/xboa/bunch/_bunch.py
+++ b/xboa/bunch/_bunch.py
@@ -102,7 +102,7 @@ class Bunch:
 
   def __deepcopy__(self, target):
     """Make a copy and copy self's data"""
-    target = eval(self.__repr__())
+    target = Bunch.new_from_hits(self.__hits)
     target.__covs  = copy.deepcopy(self.__covs)
     target.__means = copy.deepcopy(self.__means)
     return target
-- 
2.43.0


From fe3971b7208fcfb632c8e6d9c7de3bf001d03f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:03 +0000
Subject: [PATCH 21/52] fix: set_p does not change a hit at rest when the value
 is not a number

---
 xboa/hit/_hit.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xboa/hit/_hit.py b/xboa/hit/_hit.py
index 42826ae..f90089c 100644
--- a/xboa/hit/_hit.py
+++ b/xboa/hit/_hit.py
@@ -632,7 +632,8 @@ class Hit(object):
     """Set p to value_float keeping momentum direction constant"""
     p = self.get_p()
     if(p == 0):
-      self.set('pz', 1.)
+      self.set('pz', value_float)
+      return
     scale = value_float/self.get_p()
     self['px'] *= scale
     self['py'] *= scale
-- 
2.43.0


From 2bd8a5cab095062713fb31c286265135aee50873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:15 +0000
Subject: [PATCH 22/52] fix: writing a hit in an icool or mars format leaves
 its pid alone, also when the write fails

---
 xboa/hit/_hit.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/xboa/hit/_hit.py b/xboa/hit/_hit.py
index f90089c..a9ea7e1 100644
--- a/xboa/hit/_hit.py
+++ b/xboa/hit/_hit.py
@@ -405,15 +405,15 @@ class Hit(object):
     """
     if( format.find('maus') > -1 ):
       raise IOError("Can't write single maus hits, only lists of hits")
-    if( format.find('icool') > -1 ):
-      self.set('pid', Common.pdg_pid_to_icool[self.get('pid')])
-    if( format.find('mars') > -1 ):
-      self.set('pid', Common.pdg_pid_to_mars [self.get('pid')])
-    self.__write_formatted(self.__file_formats[format], self.__file_units[format], file_handle)
-    if( format.find('icool') > -1 ):
-      self.set('pid', Common.icool_pid_to_pdg[self.get('pid')])
-    if( format.find('mars') > -1 ):
-      self.set('pid', Common.mars_pid_to_pdg [self.get('pid')])
+    pid = self.get('pid')
+    try:
+      if( format.find('icool') > -1 ):
+        self.set('pid', Common.pdg_pid_to_icool[pid])
+      if( format.find('mars') > -1 ):
+        self.set('pid', Common.pdg_pid_to_mars [pid])
+      self.__write_formatted(self.__file_formats[format], self.__file_units[format], file_handle)
+    finally: # leave the hit as we found it, also when the write failed
+      self.set('pid', pid)
 
   @classmethod
   def write_list_builtin_formatted(cls, list_of_hits, file_type_string, file_name, user_comment=None):
-- 
2.43.0


From 9bfebb3e6e9b51fc2b6c2747c872e900aa4213e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:15 +0000
Subject: [PATCH 23/52] fix: set_g4bl_unit sets the unit for reading as well as
 writing, and for both g4beamline formats

---
 xboa/hit/_hit.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/xboa/hit/_hit.py b/xboa/hit/_hit.py
index a9ea7e1..8ff3780 100644
--- a/xboa/hit/_hit.py
+++ b/xboa/hit/_hit.py
@@ -696,9 +696,11 @@ class Hit(object):
 
     e.g. set_g4bl_unit('m') would set the length unit to metres
     """
-    Hit.__file_units['g4beamline_bl_track_file']['x'] = unit
-    Hit.__file_units['g4beamline_bl_track_file']['y'] = unit
-    Hit.__file_units['g4beamline_bl_track_file']['z'] = unit
+    # reading and writing keep their units separately
+    for file_units in Hit.__file_units, xboa.hit.factory.BuiltinHitFactory.file_units:
+      for file_format in 'g4beamline_bl_track_file', 'g4beamline_bl_track_file_2':
+        for key in 'x', 'y', 'z':
+          file_units[file_format][key] = unit
   set_g4bl_unit = staticmethod(set_g4bl_unit)
 
   def __getstate__(self):
-- 
2.43.0


From 1f83e58f3abc4746f9d83b0f58b3eaf47db5e9b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:30 +0000
Subject: [PATCH 24/52] fix: hit_write_user sorts a copy of the hits with a
 python 3 comparator; the user comment reaches the file header of
 hit_write_builtin_from_dict

---
 xboa/bunch/_bunch.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/xboa/bunch/_bunch.py b/xboa/bunch/_bunch.py
index 7073df4..7566d73 100644
--- a/xboa/bunch/_bunch.py
+++ b/xboa/bunch/_bunch.py
@@ -24,6 +24,7 @@ import operator
 import math
 import sys
 import bisect
+import functools
 
 try: 
   import json
@@ -1394,7 +1395,7 @@ class Bunch:
     all_hits = []
     for key,value in dict_of_bunches.items():
       all_hits += value.hits()
-    Hit.write_list_builtin_formatted(all_hits, file_type_string, file_name)
+    Hit.write_list_builtin_formatted(all_hits, file_type_string, file_name, user_comment)
   hit_write_builtin_from_dict = staticmethod(hit_write_builtin_from_dict)
   
   def hit_write_user(self, format_list, format_units_dict, file_handle, separator=' ', comparator=None):
@@ -1412,9 +1413,10 @@ class Bunch:
     0.003@0.004@0.003@0.004 
     in some_file
     """
-    if not comparator==None:
-      self.__hits.sort(comparator)
-    for hit in self.__hits:
+    hits = self.__hits
+    if not comparator==None: # sort a copy; the order of the bunch is not changed
+      hits = sorted(hits, key=functools.cmp_to_key(comparator))
+    for hit in hits:
       hit.write_user_formatted(format_list, format_units_dict, file_handle, separator)
 
   def build_ellipse_2d(beta, alpha, emittance, p, mass, geometric):
-- 
2.43.0


From 3e85f742179482d1f675c7e1b2d1ee53ee2cfd55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:43 +0000
Subject: [PATCH 25/52] fix: a line whose words are not numbers the hit can
 hold raises BadEventError; spill and global_weight can be read from and
 written to user formats

---
 xboa/hit/_hit.py                       |  2 +-
 xboa/hit/factory/_line_factory_base.py | 26 +++++++++++++++++++-------
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/xboa/hit/_hit.py b/xboa/hit/_hit.py
index 8ff3780..94743bc 100644
--- a/xboa/hit/_hit.py
+++ b/xboa/hit/_hit.py
@@ -828,7 +828,7 @@ class Hit(object):
                            'l_kin':get_l_kin,'':__do_nothing}
   __set_variables        = {'p':set_p,'x\'':set_xP,'y\'':set_yP,'t\'':set_tP,'ct':set_ct,'kinetic_energy':set_ek,'':__do_nothing}
   _default_var_types    = {'x':float,'y':float,'z':float,'t':float,'px':float,'py':float,'pz':float,'energy':float,'bx':float,'by':float,'bz':float,
-                            'ex':float,'ey':float,'ez':float,'eventNumber':int, 'event_number':int, 'particleNumber':int, 'particle_number':int, 'pid':int,'status':int,'station':int,'local_weight':float,
+                            'ex':float,'ey':float,'ez':float,'eventNumber':int, 'event_number':int, 'particleNumber':int, 'particle_number':int, 'pid':int,'status':int,'station':int,'spill':int,'local_weight':float,'global_weight':float,
                             'sx':float,'sy':float,'sz':float,'mass':float,'path_length':float,'proper_time':float,'e_dep':float, 'charge':float}
 
   __get_keys = []
diff --git a/xboa/hit/factory/_line_factory_base.py b/xboa/hit/factory/_line_factory_base.py
index 5c507c9..daef961 100644
--- a/xboa/hit/factory/_line_factory_base.py
+++ b/xboa/hit/factory/_line_factory_base.py
@@ -53,18 +53,30 @@ class LineFactoryBase(HitFactoryBase):
         if not(len(words) == len(format_list)): 
             raise xboa.hit.BadEventError("Read operation failed with line "+str(line))
         a_hit = xboa.hit.Hit()
+        global_weight = None
         for key in format_list:
-            value = words.pop()
-            if key != '':
+            word = words.pop()
+            if key == '':
+                continue
+            try:
+                var_type = xboa.hit.Hit._default_var_types[key]
                 try:
-                    value = xboa.hit.Hit._default_var_types[key](value)
+                    value = var_type(word)
                 # I ran into problems with int > 1000000 written in scientific 
                 # notation by G4BL (urk)
                 except ValueError:
-                    value = float(value)
-                    value = xboa.hit.Hit._default_var_types[key](value)
-                if xboa.hit.Hit._default_var_types[key] == float:
+                    value = var_type(float(word))
+                if var_type == float:
                     value *= common.units[format_units_dict[key]]
-                a_hit.set(key, value)
+                if key == 'global_weight':
+                    global_weight = value
+                else:
+                    a_hit.set(key, value)
+            # the word is not a number, or not one that this variable can hold
+            except (ValueError, OverflowError, IndexError):
+                raise xboa.hit.BadEventError("Read operation failed with line "+str(line))
+        # the global weight belongs to a particle, so set it when the hit is identified
+        if global_weight is not None:
+            a_hit.set('global_weight', global_weight)
         return a_hit
 
-- 
2.43.0


From 8e60ac78100c2d95fed17a6c31154815ef453743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:25 +0000
Subject: [PATCH 26/52] fix: maus json files can be read again with python 3:
 dict items, hit_generator, new_list_from_maus_json, and every hit type from
 the whole file

---
 xboa/bunch/_bunch.py                       |  1 +
 xboa/hit/_hit.py                           |  5 +++--
 xboa/hit/factory/_hit_factory_base.py      | 26 +++++++++++++---------
 xboa/hit/factory/_maus_json_hit_factory.py |  6 ++---
 4 files changed, 22 insertions(+), 16 deletions(-)

diff --git a/xboa/bunch/_bunch.py b/xboa/bunch/_bunch.py
index 7566d73..d1f6f5c 100644
--- a/xboa/bunch/_bunch.py
+++ b/xboa/bunch/_bunch.py
@@ -451,6 +451,7 @@ class Bunch:
     json_file = open(file_name, 'r')
     hits = []
     for maus_type in list_of_maus_types:
+        json_file.seek(0) # each type is read from the whole file
         fac = xboa.hit.factory.MausJsonHitFactory(json_file, maus_type)
         while number_of_hits < 0 or len(hits) < number_of_hits:
             try:
diff --git a/xboa/hit/_hit.py b/xboa/hit/_hit.py
index 94743bc..5a252d2 100644
--- a/xboa/hit/_hit.py
+++ b/xboa/hit/_hit.py
@@ -201,7 +201,7 @@ class Hit(object):
     Returns a list of hit objects. Station number will be taken from the relevant maus_type. event_number will be given by the spill_number. track_number will be given by
     the index on mc_events or recon_events
     """
-    fac = xboa.hit.factory.factory.MausRootHitFactory(format, root_tree, entry_number)
+    fac = xboa.hit.factory.MausRootHitFactory(root_tree, format, entry_number)
     hit_list = [hit for hit in fac.hit_generator()]
     return hit_list
 
@@ -217,7 +217,7 @@ class Hit(object):
     relevant maus_type. event_number will be given by the spill_number. 
     track_number will be given by the index on mc_events or recon_events.
     """
-    fac = xboa.hit.factory.factory.MausJsonHitFactory(format, file_handle)
+    fac = xboa.hit.factory.MausJsonHitFactory(filehandle, format)
     hit_list = [hit for hit in fac.hit_generator()]
     return hit_list
     
@@ -439,6 +439,7 @@ class Hit(object):
         item["maus_event_type"] = "Spill"
         item["spill_number"] = spill_number
         print(json.dumps(item), file=filehandle)
+      filehandle.close()
       return
     sort_key = lambda hit: hit["station"]
     list_of_hits = sorted(list_of_hits, key=sort_key)
diff --git a/xboa/hit/factory/_hit_factory_base.py b/xboa/hit/factory/_hit_factory_base.py
index d51d445..e6eb494 100644
--- a/xboa/hit/factory/_hit_factory_base.py
+++ b/xboa/hit/factory/_hit_factory_base.py
@@ -33,18 +33,22 @@ class HitFactoryBase(object):
         raise NotImplementedError("make_hit not implemented")
 
     def hit_generator(self):
-        try:
-            print("gen in")
-            yield self.make_hit()
-            print("gen out")
-        except (EOFError, xboa.hit.BadEventError):
-            self.new_spill()
+        """
+        Generate hits until there are no more; hits that cannot be read are
+        passed over
+        """
+        while True:
             try:
-                yield self.make_hit()
-            except (EOFError, xboa.hit.BadEventError):
-                raise StopIteration("Finished")
-        except StopIteration:
-            raise
+                hit = self.make_hit()
+            except EOFError:
+                return
+            except xboa.hit.BadEventError:
+                try:
+                    self.new_spill()
+                except (IndexError, EOFError, xboa.hit.BadEventError):
+                    return # no more spills
+                continue
+            yield hit
 
     def new_spill(self):
         """
diff --git a/xboa/hit/factory/_maus_json_hit_factory.py b/xboa/hit/factory/_maus_json_hit_factory.py
index e8a0ad3..5ba41a6 100644
--- a/xboa/hit/factory/_maus_json_hit_factory.py
+++ b/xboa/hit/factory/_maus_json_hit_factory.py
@@ -130,10 +130,10 @@ class MausJsonHitFactory(HitFactoryBase):
         xboa_dict = {}
         three_vec_conversions = cls._maus_three_vec_conversions[format]
         conversion_dict = cls._maus_variable_conversions[format]
-        for maus_name, xboa_suffix in three_vec_conversions.iteritems():
-          for maus_xyz, value in maus_dict[maus_name].iteritems():
+        for maus_name, xboa_suffix in three_vec_conversions.items():
+          for maus_xyz, value in maus_dict[maus_name].items():
             xboa_dict[xboa_suffix+maus_xyz] = value
-        for maus_key, xboa_key in conversion_dict.iteritems():
+        for maus_key, xboa_key in conversion_dict.items():
           xboa_dict[xboa_key] = maus_dict[maus_key]
         xboa_dict['event_number'] = event_number
         if 'mass' not in xboa_dict.keys():
-- 
2.43.0


From 48e293893e97de8a83639b0b2e10581e9fa980f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:20 +0000
Subject: [PATCH 27/52] fix: the electric field of icool_for009 files is in
 V/m, as their header says

---
 xboa/common/_common.py                   | 2 +-
 xboa/hit/_hit.py                         | 2 +-
 xboa/hit/factory/_builtin_hit_factory.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/xboa/common/_common.py b/xboa/common/_common.py
index fd20185..041147c 100644
--- a/xboa/common/_common.py
+++ b/xboa/common/_common.py
@@ -101,7 +101,7 @@ units            = {'':1.,
   'Gauss':1.e-7, 'mT':1.e-6, 'T':1.e-3, 'kT':1.,
   'V':1.e-6, 'kV':1.e-3, 'MV':1., 'GV':1.e3, 
   'kHz':1.e-6, 'MHz':1.e-3, 'GHz':1.,
-  'GV/m':1.,'GV/mm':1.e3,
+  'V/m':1.e-9,'GV/m':1.,'GV/mm':1.e3,
   'kW':6.24150974e6, 'MW':6.24150974e9, 'GW':6.24150974e12,
   'degrees':2.*constants['pi']/360., 'radians':1., 'deg':2.*constants['pi']/360., 'rad':1., 'degree':2.*constants['pi']/360., 'radian':1.,
   'echarge':1., 'Coulomb':6.24150974*10.**18.
diff --git a/xboa/hit/_hit.py b/xboa/hit/_hit.py
index 5a252d2..a590e3d 100644
--- a/xboa/hit/_hit.py
+++ b/xboa/hit/_hit.py
@@ -884,7 +884,7 @@ class Hit(object):
   __file_units = {
     'icool_for009' : {'eventNumber':'', 'particleNumber':'', 'pid':'', 'status':'', 'station':'', 't':'s', 'x':'m', 'y':'m', 'z':'m', 'px':'GeV/c', 'py':'GeV/c', 
     'pz':'GeV/c', 'bx':'T', 'by':'T', 'bz':'T', 'local_weight':'', 
-                         'ex':'GV/m', 'ey':'GV/m', 'ez':'GV/m', 'sx':'', 'sy':'', 'sz':'', '':''},
+                         'ex':'V/m', 'ey':'V/m', 'ez':'V/m', 'sx':'', 'sy':'', 'sz':'', '':''},
     'icool_for003' : {'eventNumber':'', 'particleNumber':'', 'pid':'', 'status':'', 't':'s', 'local_weight':'', 'x':'m', 'y':'m', 'z':'m', 'px':'GeV/c', 'py':'GeV/c', 'pz':'GeV/c', 'sx':'', 'sy':'', 'sz':''},
     'g4beamline_bl_track_file'  : {'x':'mm','y':'mm','z':'mm','px':'MeV/c','py':'MeV/c','pz':'MeV/c','t':'ns','pid':'','eventNumber':'','station':'','local_weight':'', 'particleNumber':''},
     'g4beamline_bl_track_file_2'  : {'x':'mm','y':'mm','z':'mm','px':'MeV/c','py':'MeV/c','pz':'MeV/c','t':'ns','pid':'','eventNumber':'','station':'','local_weight':'', 'particleNumber':''},
diff --git a/xboa/hit/factory/_builtin_hit_factory.py b/xboa/hit/factory/_builtin_hit_factory.py
index dab85d3..d0226f2 100644
--- a/xboa/hit/factory/_builtin_hit_factory.py
+++ b/xboa/hit/factory/_builtin_hit_factory.py
@@ -79,7 +79,7 @@ class BuiltinHitFactory(LineFactoryBase):
     file_units = {
       'icool_for009' : {'eventNumber':'', 'particleNumber':'', 'pid':'', 'status':'', 'station':'', 't':'s', 'x':'m', 'y':'m', 'z':'m', 'px':'GeV/c', 'py':'GeV/c', 
       'pz':'GeV/c', 'bx':'T', 'by':'T', 'bz':'T', 'local_weight':'', 
-                           'ex':'GV/m', 'ey':'GV/m', 'ez':'GV/m', 'sx':'', 'sy':'', 'sz':'', '':''},
+                           'ex':'V/m', 'ey':'V/m', 'ez':'V/m', 'sx':'', 'sy':'', 'sz':'', '':''},
       'icool_for003' : {'eventNumber':'', 'particleNumber':'', 'pid':'', 'status':'', 't':'s', 'local_weight':'', 'x':'m', 'y':'m', 'z':'m', 'px':'GeV/c', 'py':'GeV/c', 'pz':'GeV/c', 'sx':'', 'sy':'', 'sz':''},
       'g4beamline_bl_track_file'  : {'x':'mm','y':'mm','z':'mm','px':'MeV/c','py':'MeV/c','pz':'MeV/c','t':'ns','pid':'','eventNumber':'','station':'','local_weight':'', 'particleNumber':''},
       'g4beamline_bl_track_file_2'  : {'x':'mm','y':'mm','z':'mm','px':'MeV/c','py':'MeV/c','pz':'MeV/c','t':'ns','pid':'','eventNumber':'','station':'','local_weight':'', 'particleNumber':''},
-- 
2.43.0


From 1528066ba7abb3dd2a91bc3b23966ab6c77ae5f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:00 +0000
Subject: [PATCH 28/52] fix: deuterium, tritium and helium nuclei are charged

---
 xboa/common/_common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xboa/common/_common.py b/xboa/common/_common.py
index 041147c..31e8ece 100644
--- a/xboa/common/_common.py
+++ b/xboa/common/_common.py
@@ -88,7 +88,7 @@ pdg_pid_to_mass  = {0:0, 11:0.510998910, 12:0., 13:105.6583668, 14:0., 22:0., 11
 pdg_pid_to_name  = {0:'none', 11:'e-', 12:'electron neutrino', 13:'mu-', 14:'muon neutrino', 22:'photon', 111:'pi0', 211:'pi+', 321:'K+', 2112:'neutron', 2212:'proton', 1000010020:'deuterium', 1000010030:'tritium', 1000020030:'3He', 1000020040:'4He', 130:'K0L', 310:'K0S', 311:'K0', 3122:'lambda',
 -11:'e+', -12:'electron antineutrino', -13:'mu+', -14:'muon antineutrino', -211:'pi-', -321:'K-', -2112:'antineutron', -2212:'antiproton', -3122:'antilambda'}
 
-pdg_pid_to_charge  = {0:0, 11:-1, 12:0, 13:-1, 14:0, 22:0, 111:0, 211:+1, 321:+1, 2112:0, 2212:+1, 1000010020:0, 1000010030:0, 1000020030:0, 1000020040:0, 130:0, 310:0, 311:0, 3122:0, -11:+1, -12:0, -13:+1, -14:0, -211:-1, -321:-1, -2112:0, -2212:-1, -3122:0}
+pdg_pid_to_charge  = {0:0, 11:-1, 12:0, 13:-1, 14:0, 22:0, 111:0, 211:+1, 321:+1, 2112:0, 2212:+1, 1000010020:+1, 1000010030:+1, 1000020030:+2, 1000020040:+2, 130:0, 310:0, 311:0, 3122:0, -11:+1, -12:0, -13:+1, -14:0, -211:-1, -321:-1, -2112:0, -2212:-1, -3122:0}
 
 
 constants        = {'c_light':299.792458, 'pi':3.14159265,'echarge':1}
-- 
2.43.0


From b37b8705a32785caf6996ea4047e15ab10a45aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:45 +0000
Subject: [PATCH 29/52] fix: min_max does not append to the caller's list when
 the weight list has another length

---
 xboa/common/_common.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/xboa/common/_common.py b/xboa/common/_common.py
index 31e8ece..6c1a0f1 100644
--- a/xboa/common/_common.py
+++ b/xboa/common/_common.py
@@ -264,9 +264,9 @@ def min_max(x_float_list, weight_list=[], margin = 0.1, xmin=None, xmax=None):
   new_floats = x_float_list
   if len(weight_list) == len(x_float_list):
     new_floats =  []
-  for ind in range(len(weight_list)):
-    if weight_list[ind] > 1e-6:
-      new_floats.append(x_float_list[ind]) 
+    for ind in range(len(weight_list)):
+      if weight_list[ind] > 1e-6:
+        new_floats.append(x_float_list[ind]) 
   if len(new_floats) == 0: x = [0.,0.]
   else:                      x = [min(new_floats), max(new_floats)]
   delta = (x[1]-x[0])*margin
-- 
2.43.0


From 345e98700a493c29d62a820cfe3bc232f6953999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:52 +0000
Subject: [PATCH 30/52] fix: fit_ellipse normalises the cut with the dimension
 of the points, not always 2

---
 xboa/common/_common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xboa/common/_common.py b/xboa/common/_common.py
index 6c1a0f1..aa9558d 100644
--- a/xboa/common/_common.py
+++ b/xboa/common/_common.py
@@ -975,7 +975,7 @@ def _get_fit_ellipse_covariance_matrix(points, weights, in_cut):
 
 def _update_fit_ellipse_cut(points, cov_inv, mean, eps_cut):
     n_points = len(points)
-    n_dim = 2
+    n_dim = len(mean)
     in_cut = [True for i in range(n_points)]
     sqrt_det_inv = numpy.linalg.det(cov_inv)**(1./float(n_dim))
     for i in range(n_points):
-- 
2.43.0


From 54349ca03bd392eb9f2c9dc7d691b73d0f0b24cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:52 +0000
Subject: [PATCH 31/52] fix: 2D Bunch.histogram with automatic bins divided by
 zero bins; the largest hit was lost from histograms with automatic ranges

---
 xboa/bunch/_bunch.py   | 13 +++++++------
 xboa/common/_common.py |  7 ++++++-
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/xboa/bunch/_bunch.py b/xboa/bunch/_bunch.py
index d1f6f5c..69f874e 100644
--- a/xboa/bunch/_bunch.py
+++ b/xboa/bunch/_bunch.py
@@ -1542,15 +1542,15 @@ class Bunch:
     if ymin!=None: ymin*=Common.units[y_axis_units]
     if ymax!=None: ymax*=Common.units[y_axis_units]
     if y_axis_string=='': 
-      (nx_bins, ny_bins, dummy) = Common.n_bins(len(x_points), nx_bins, 1)
+      (nx_bins, ny_bins, dummy) = Common.n_bins(len(x_points), nx_bins, n_dimensions=1)
     else:
       y_points                  = self.list_get_hit_variable([y_axis_string], [y_axis_units])[0]
-      (nx_bins, ny_bins, dummy) = Common.n_bins(len(y_points), nx_bins, ny_bins, 2)
+      (nx_bins, ny_bins, dummy) = Common.n_bins(len(y_points), nx_bins, ny_bins, n_dimensions=2)
       y_bins                    = Common.get_bin_edges(y_points, ny_bins, ymin, ymax)
     x_bins = Common.get_bin_edges(x_points, nx_bins, xmin, xmax)
-    return self.histogram_var_bins(x_axis_string, x_bins, x_axis_units, y_axis_string, y_bins, y_axis_units)
+    return self.histogram_var_bins(x_axis_string, x_bins, x_axis_units, y_axis_string, y_bins, y_axis_units, include_last_edge=True)
 
-  def histogram_var_bins(self, x_axis_string, x_bins, x_axis_units='', y_axis_string='', y_bins=None, y_axis_units=''):
+  def histogram_var_bins(self, x_axis_string, x_bins, x_axis_units='', y_axis_string='', y_bins=None, y_axis_units='', include_last_edge=False):
     """
     Returns a binned histogram of hits in the bunch.
 
@@ -1562,6 +1562,7 @@ class Bunch:
     - y_axis_string = string for call to get_hit_variables()
     - y_bins        = list of bin edges used to generate the histogram
     - y_axis_units  = units for y axis
+    - include_last_edge = set to True to count hits that lie on the last edge in the last bin; otherwise they are outside
 
     Return value is a tuple containing ((bin weights array),x_bins,y_bins). The bin weights array is always nx*ny, with ny defaulting to 1 in the case of a 1d histogram.
     """
@@ -1569,10 +1570,10 @@ class Bunch:
     weights    = self.list_get_hit_variable(['weight'], [''])[0]
     x_points = self.list_get_hit_variable([x_axis_string], [x_axis_units])[0]
     if y_axis_string == '':
-      return Common.histogram(x_points, x_bins, weights=weights)
+      return Common.histogram(x_points, x_bins, weights=weights, include_last_edge=include_last_edge)
     else:
       y_points = self.list_get_hit_variable([y_axis_string], [y_axis_units])[0]
-      return Common.histogram(x_points, x_bins, y_points, y_bins, weights=weights)
+      return Common.histogram(x_points, x_bins, y_points, y_bins, weights=weights, include_last_edge=include_last_edge)
 
   def root_histogram(self, x_axis_string, x_axis_units='', y_axis_string='', y_axis_units='', nx_bins=None, ny_bins=None, canvas=None, xmin=None, xmax=None, ymin=None, ymax=None,
                         line_color=rg.line_color, line_style=rg.line_style, line_width=rg.line_width, fill_color=rg.fill_color, stats=rg.stats, hist_title_string='', draw_option=''):
diff --git a/xboa/common/_common.py b/xboa/common/_common.py
index aa9558d..ab3a0a0 100644
--- a/xboa/common/_common.py
+++ b/xboa/common/_common.py
@@ -319,7 +319,7 @@ def n_bins(n_points, nx_bins=None, ny_bins=None, nz_bins=None, n_dimensions=1):
     if out[i] == None: out[i]= 0 #set out to 0 for values that are out of the dimension range
   return tuple(out)
 
-def histogram(x_values, x_bins, y_values=None, y_bins=None, weights=None):
+def histogram(x_values, x_bins, y_values=None, y_bins=None, weights=None, include_last_edge=False):
   """
   Get a 1d or 2d list of bin weights from a set of data, weights and bin edges
 
@@ -328,6 +328,7 @@ def histogram(x_values, x_bins, y_values=None, y_bins=None, weights=None):
   - y_values = list of y values to be binned. Set to None to make a 1d binning
   - y_bins   = list of y bin edges of same length as x_values
   - weights  = list of statistical weights of same length as x_values. Set to None to make all weights default to 1.
+  - include_last_edge = set to True to count points that lie on the last edge in the last bin; otherwise they are outside.
 
   Return value is a tuple of (bin_weights, x_bins, y_bins)
   """
@@ -343,6 +344,9 @@ def histogram(x_values, x_bins, y_values=None, y_bins=None, weights=None):
   for i,x in enumerate(x_values):
     p = bisect.bisect_right(x_bins,x_values[i])-1
     q = bisect.bisect_right(y_bins,y_values[i])-1
+    if include_last_edge:
+      if x_values[i] == x_bins[-1]: p = len(x_bins)-2
+      if y_values[i] == y_bins[-1]: q = len(y_bins)-2
     if p>=0 and p<len(x_bins)-1 and q>=0 and q<len(y_bins)-1:
       contents[p,q] += weights[i]
   out = (contents, x_bins, y_bins)
@@ -365,6 +369,7 @@ def get_bin_edges(list_of_variables, number_of_bins, xmin=None, xmax=None):
   delta   = (mm[1] - mm[0])/float(number_of_bins)
   for i in range(number_of_bins+1):
     my_bins.append(mm[0]+delta*i)
+  my_bins[-1] = mm[1] # rounding must not leave the maximum outside
   return my_bins
 
 def make_root_canvas(name_string, title_string=None, bg_color=rg.canvas_fill_color, highlight_color=rg.canvas_highlight_color, 
-- 
2.43.0


From 2d11b21c810cf627523df7e6c94a752242566807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:47 +0000
Subject: [PATCH 32/52] fix: the multipole weighting equations had target and
 bunch moments exchanged, so two or more targets were missed

---
 xboa/bunch/weighting/_multipole_weighting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xboa/bunch/weighting/_multipole_weighting.py b/xboa/bunch/weighting/_multipole_weighting.py
index cdaa280..31399e5 100644
--- a/xboa/bunch/weighting/_multipole_weighting.py
+++ b/xboa/bunch/weighting/_multipole_weighting.py
@@ -122,7 +122,7 @@ class MultipoleWeighting(object):
                 list_ij = [list_i[i1]+list_j[i1] \
                                            for i1, index_i in enumerate(list_i)]
                 m_matrix[i, j] = \
-                      self._v_f(list_ij) - self._v_f(list_i) * self._v_g(list_j)
+                      self._v_f(list_ij) - self._v_g(list_i) * self._v_f(list_j)
         m_inverse = numpy.linalg.inv(m_matrix)
         u_vector = numpy.zeros([len(self.v_g_index_by_power)])
         for i, list_i in enumerate(self.v_g_index_by_power):
-- 
2.43.0


From 72806cf7f09e976f60ae45964af9a878e44bc109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:55 +0000
Subject: [PATCH 33/52] fix: MultipoleWeighting refuses repeated targets and
 targets beyond its maximum pole instead of using another moment

---
 xboa/bunch/weighting/_multipole_weighting.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/xboa/bunch/weighting/_multipole_weighting.py b/xboa/bunch/weighting/_multipole_weighting.py
index 31399e5..94aff5e 100644
--- a/xboa/bunch/weighting/_multipole_weighting.py
+++ b/xboa/bunch/weighting/_multipole_weighting.py
@@ -102,8 +102,8 @@ class MultipoleWeighting(object):
                 if type(index) != type(0):
                     raise ValueError("Index type is non-integer")
 
-        for i, item in enumerate(moment_index_list[1:]):
-            if item == moment_index_list[i]:
+        for i, item in enumerate(moment_index_list):
+            if item in moment_index_list[:i]:
                raise ValueError("Indices should be unique")
         # zip and sort
         sorted_list = sorted(zip(moment_index_list, moment_list))
@@ -135,6 +135,10 @@ class MultipoleWeighting(object):
         Get the element in v_f corresponding to index_list
         """
         index = bisect.bisect_left(self.v_f_index_by_power, index_list)
+        if index == len(self.v_f_index_by_power) or \
+           self.v_f_index_by_power[index] != index_list:
+            raise ValueError("Moment "+str(index_list)+" is not available with "+
+                             "maximum pole "+str(self.maximum_moment))
         v_f_ = self.v_f_list[index]
         return v_f_
 
-- 
2.43.0


From b3792f0e8fbff2f6268ce813873ff110450fb721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:48 +0000
Subject: [PATCH 34/52] fix: Voronoi weighting did not run on python 3 (zip,
 xrange, numpy.math) nor with a given mean

---
 xboa/bunch/weighting/_hull_content.py      | 5 +++--
 xboa/bunch/weighting/_voronoi_weighting.py | 6 +++---
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/xboa/bunch/weighting/_hull_content.py b/xboa/bunch/weighting/_hull_content.py
index 392ac42..4994c15 100644
--- a/xboa/bunch/weighting/_hull_content.py
+++ b/xboa/bunch/weighting/_hull_content.py
@@ -18,6 +18,7 @@
 HullContent class should be imported directly from xboa.bunch.weighting
 """
 
+import math
 import multiprocessing
 import signal
 import os
@@ -88,7 +89,7 @@ def _get_cm_matrix(simplex, triangulation, dimension):
             point_i = triangulation.points[vertex_i]
             point_j = triangulation.points[vertex_j]
             square = [(point_i[d] - point_j[d])**2 \
-                                             for d in xrange(dimension)]
+                                             for d in range(dimension)]
             length_sq = sum(square)
             elements[i+1, j+1] = length_sq
             elements[j+1, i+1] = length_sq
@@ -109,7 +110,7 @@ def _tile_content(args):
         content = 0.
         triangulation = scipy.spatial.Delaunay(points)
         coefficient = (-1)**(dimension+1)/2.**dimension
-        coefficient /= numpy.math.factorial(dimension)**2.
+        coefficient /= math.factorial(dimension)**2.
         for simplex in triangulation.simplices:
             elements = _get_cm_matrix(simplex, triangulation, dimension)
             det = numpy.linalg.det(elements)
diff --git a/xboa/bunch/weighting/_voronoi_weighting.py b/xboa/bunch/weighting/_voronoi_weighting.py
index ee23c01..657a68c 100644
--- a/xboa/bunch/weighting/_voronoi_weighting.py
+++ b/xboa/bunch/weighting/_voronoi_weighting.py
@@ -99,7 +99,7 @@ class VoronoiWeighting(object):
         config.has_numpy()
         config.has_scipy()
         self.dim = len(weight_variables)
-        if weight_mean == None:
+        if weight_mean is None:
             weight_mean = numpy.array([0.]*self.dim)
         if (self.dim,) != numpy.shape(weight_mean):
             raise ValueError("weight_mean shape "+\
@@ -144,7 +144,7 @@ class VoronoiWeighting(object):
         Returns None (the bunch is weighted "in-place")
         """
         self.real_points = bunch.list_get_hit_variable(self.weight_variables)
-        self.real_points = zip(*tuple(self.real_points))
+        self.real_points = list(zip(*tuple(self.real_points)))
         self.real_points = numpy.array(self.real_points)
         if self.voronoi_bound != None:
             self.real_points, not_cut = \
@@ -153,7 +153,7 @@ class VoronoiWeighting(object):
                                    self.voronoi_bound.bounding_points))
         else:
             points = self.real_points
-            not_cut = range(len(self.real_points))
+            not_cut = list(range(len(self.real_points)))
         self.tesselation = scipy.spatial.Voronoi(points)
         point_list = range(len(self.real_points))
         self.tile_content_list =  xboa.bunch.weighting.HullContent(self.tesselation, point_list, number_of_processes).tile_content_list
-- 
2.43.0


From b91a8871959729d969360b3558bdd319d35a7f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:56 +0000
Subject: [PATCH 35/52] fix: RefinePeakFinder failed on python 3 (float and
 range indices) and used the fit quality of the previous peak

---
 xboa/algorithms/peak_finder/_refine_peak_finder.py          | 6 +++---
 xboa/algorithms/peak_finder/_uphill_downhill_peak_finder.py | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/xboa/algorithms/peak_finder/_refine_peak_finder.py b/xboa/algorithms/peak_finder/_refine_peak_finder.py
index ed74369..5838725 100644
--- a/xboa/algorithms/peak_finder/_refine_peak_finder.py
+++ b/xboa/algorithms/peak_finder/_refine_peak_finder.py
@@ -92,7 +92,7 @@ class RefinePeakFinder(object):
         """
         x_min = max(peak_index-delta_fit, 0)
         x_max = min(peak_index+delta_fit+1, len(data))
-        x_list = range(x_min-peak_index, x_max-peak_index)
+        x_list = list(range(x_min-peak_index, x_max-peak_index))
         y_list = data[x_min:x_max]
         hist, graph = common.make_root_graph("name", x_list, "", data[x_min:x_max], "")
         if self.fit == None:
@@ -123,9 +123,9 @@ class RefinePeakFinder(object):
         # chi2 gives estimate of fit errors
         this_max_delta = min(len(data), self.max_delta)
         peak_with_errors = []
-        fit_quality = 0.
         fail_list = []
         for peak in self.peak_list:
+            fit_quality = 0.
             delta_fit = self.delta_seed
             while fit_quality < 1. and delta_fit < this_max_delta:
                 delta_fit *= 2
@@ -133,7 +133,7 @@ class RefinePeakFinder(object):
                     fit_quality, hist, graph, fit = self._peak_fit(data, peak, delta_fit, self.delta_seed)
                 except Exception:
                     break
-            delta_fit /= 2
+            delta_fit //= 2
             fit_quality, hist, graph, fit = self._peak_fit(data, peak, delta_fit, self.delta_seed)
             if self.draw:
                 canvas = common.make_root_canvas("values")
diff --git a/xboa/algorithms/peak_finder/_uphill_downhill_peak_finder.py b/xboa/algorithms/peak_finder/_uphill_downhill_peak_finder.py
index aa4e40b..fa9e984 100644
--- a/xboa/algorithms/peak_finder/_uphill_downhill_peak_finder.py
+++ b/xboa/algorithms/peak_finder/_uphill_downhill_peak_finder.py
@@ -47,7 +47,7 @@ class UphillDownhillPeakFinder(object):
         for peak in peak_list:
             x_min = max(peak-delta_index, 0)
             x_max = min(peak+delta_index+1, len(derivative))
-            x_list = range(x_min, x_max)
+            x_list = list(range(x_min, x_max))
             y_list = derivative[x_min:x_max]
             graph = ROOT.TGraph(len(x_list))
             for i in range(5):
-- 
2.43.0


From 19639062833294c04f40d536e79e813c2095ba18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:43 +0000
Subject: [PATCH 36/52] fix: CutSmoothing failed on python 3 and took the mean
 of only part of a signal shorter than the step

---
 xboa/algorithms/smoothing/_cut_smoothing.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/xboa/algorithms/smoothing/_cut_smoothing.py b/xboa/algorithms/smoothing/_cut_smoothing.py
index 83354d6..b531efb 100644
--- a/xboa/algorithms/smoothing/_cut_smoothing.py
+++ b/xboa/algorithms/smoothing/_cut_smoothing.py
@@ -72,13 +72,13 @@ class CutSmoothing(object):
                                  " not equal to "+str(n_signal))
         will_cut_data = [False]*n_signal
 
-        for i in range(n_signal/self.step):
+        for i in range(n_signal//self.step):
             data_mean = numpy.mean(signal[i*self.step:(i+1)*self.step])
             for j in range(i*self.step, (i+1)*self.step):
                 will_cut_data[j] = abs(signal[j]-data_mean) > self.cut_range
 
-        data_mean = numpy.mean(signal[n_signal-self.step:n_signal])
-        for j in range((n_signal/self.step)*self.step, n_signal):
+        data_mean = numpy.mean(signal[max(n_signal-self.step, 0):n_signal])
+        for j in range((n_signal//self.step)*self.step, n_signal):
             will_cut_data[j] = abs(signal[j]-data_mean) > self.cut_range
 
         table_out = copy.deepcopy(table)
-- 
2.43.0


From 052aad5396079d806b8cabd2e9689faa56cf2cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:22 +0000
Subject: [PATCH 37/52] fix: DPhiTuneFinder mixed the phase advances of earlier
 data into the tune

---
 xboa/algorithms/tune/_dphi_tune.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xboa/algorithms/tune/_dphi_tune.py b/xboa/algorithms/tune/_dphi_tune.py
index d449e4b..c991a11 100644
--- a/xboa/algorithms/tune/_dphi_tune.py
+++ b/xboa/algorithms/tune/_dphi_tune.py
@@ -70,6 +70,7 @@ class DPhiTuneFinder(object):
         points = zip(self.u, self.up)
         plot_x, plot_y = [], []
         self.point_circles = []
+        self.dphi = []
         for point in points:
             point_array = numpy.array([point[0]-self.centre[0],
                                     point[1]-self.centre[1]])
-- 
2.43.0


From f4aa88e2859ea036f8a6f321cc7419b784101ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:22 +0000
Subject: [PATCH 38/52] fix: the frequency axis of FFTTuneFinder was too small
 by n/(n+1), and the slow transform was taken at the wrong frequency

---
 xboa/algorithms/tune/_fft_tune.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xboa/algorithms/tune/_fft_tune.py b/xboa/algorithms/tune/_fft_tune.py
index 2198b44..d7b9a57 100644
--- a/xboa/algorithms/tune/_fft_tune.py
+++ b/xboa/algorithms/tune/_fft_tune.py
@@ -252,7 +252,7 @@ class FFTTuneFinder(object):
         fft = numpy.fft.rfft(numpy.array(self.u))
         k_list = [[float(numpy.real(z)), float(numpy.imag(z))] for z in fft]
         self.k_mag_y = [(z[0]**2+z[1]**2)**0.5 for z in k_list]
-        self.k_mag_x = [i/2./float(len(k_list)) for i, z in enumerate(k_list)]
+        self.k_mag_x = [i/float(len(self.u)) for i, z in enumerate(k_list)]
         self._find_peaks()
 
     def _find_peaks(self):
@@ -336,7 +336,7 @@ class FFTTuneFinder(object):
         for m, a_m in enumerate(self.u):
             if self.use_hanning_filter:
                 hanning = 2.*math.sin(math.pi*m/n)**2.
-            f = 2.*math.pi*m*k_x*(n+1)/n
+            f = 2.*math.pi*m*k_x
             dy = hanning*a_m*math.cos(f)
             dz = hanning*a_m*math.sin(f)
             y_point += dy
-- 
2.43.0


From bca337d2be39e87a5e2dc5937fc00d6d6bf1c4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:34 +0000
Subject: [PATCH 39/52] fix: the closed orbit generators ended with
 RuntimeError (StopIteration raised inside a generator) and
 max_iterations=None raised TypeError

---
 .../closed_orbit/_ellipse_closed_orbit_finder.py   | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/xboa/algorithms/closed_orbit/_ellipse_closed_orbit_finder.py b/xboa/algorithms/closed_orbit/_ellipse_closed_orbit_finder.py
index 7064b72..c32d16c 100644
--- a/xboa/algorithms/closed_orbit/_ellipse_closed_orbit_finder.py
+++ b/xboa/algorithms/closed_orbit/_ellipse_closed_orbit_finder.py
@@ -74,7 +74,7 @@ class EllipseClosedOrbitFinder(object):
         while True:
             for key in keys:
                 if step[key] >= step_end_dict[key]:
-                    raise StopIteration("Run out of steps at "+json.dumps(step))
+                    return # run out of steps
                 next_hit[key] = step[key]
             hit_list = self.tracking.track_one(next_hit)
             x_list = [[hit[key] for key in keys] for hit in hit_list]
@@ -120,7 +120,7 @@ class EllipseClosedOrbitFinder(object):
         next_hit = self.seed.deepcopy()
         noise_mean = None
         iteration = 0
-        while iteration < max_iterations or max_iterations == None:
+        while max_iterations == None or iteration < max_iterations:
             iteration += 1
             x_list = self._get_points(keys, next_hit, number_of_points)
             try:
@@ -128,20 +128,16 @@ class EllipseClosedOrbitFinder(object):
                                                           self.eps_max, True)
             except  (numpy.linalg.linalg.LinAlgError, ValueError):
                 if len(x_list) > number_of_points:
-                    raise StopIteration("Closed orbit has reached numerical "+\
-                                        "precision limit. Nice!")
+                    return # reached numerical precision limit
                 else:
                     raise ValueError("Failed to find ellipse determinant.")
 
             yield my_co
             if my_co.get_mean_noise() < my_co.get_sigma_noise():
-                raise StopIteration("Closed orbit finder has reached "+\
-                                    "convergence limit. Tracking noise is "+\
-                                    "greater than ellipse size.")
+                return # tracking noise is greater than ellipse size
             for i, var in enumerate(keys):
                 next_hit[var] = my_co.centre[i]
-        raise StopIteration("Closed orbit finder has finished iterating without converging.")
- 
+
 
     def check_closed_orbit(self, test_variable_dict, number_of_points):
         """
-- 
2.43.0


From e8afe7ab1e71c7845782257a2f5dc6661b228a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:34 +0000
Subject: [PATCH 40/52] fix: a scan for closed orbits stopped early when a step
 fell exactly on the end of an inner variable

---
 xboa/algorithms/closed_orbit/_ellipse_closed_orbit_finder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xboa/algorithms/closed_orbit/_ellipse_closed_orbit_finder.py b/xboa/algorithms/closed_orbit/_ellipse_closed_orbit_finder.py
index c32d16c..cb38f44 100644
--- a/xboa/algorithms/closed_orbit/_ellipse_closed_orbit_finder.py
+++ b/xboa/algorithms/closed_orbit/_ellipse_closed_orbit_finder.py
@@ -84,7 +84,7 @@ class EllipseClosedOrbitFinder(object):
             i = len(keys)-1
             key = keys[i]
             step[key] += step_size_dict[key]
-            while step[key] > step_end_dict[key] and i > 0:
+            while step[key] >= step_end_dict[key] and i > 0:
                 step[key] = step_start_dict[key]
                 i -= 1
                 key = keys[i]
-- 
2.43.0


From e6b04dee2db09b9c76dc8564d9265fd6a3fc92f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:34 +0000
Subject: [PATCH 41/52] fix: tracking that returned no new hits ended the
 closed orbit search with IndexError instead of the documented RuntimeError

---
 xboa/algorithms/closed_orbit/_ellipse_closed_orbit_finder.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/xboa/algorithms/closed_orbit/_ellipse_closed_orbit_finder.py b/xboa/algorithms/closed_orbit/_ellipse_closed_orbit_finder.py
index cb38f44..547622a 100644
--- a/xboa/algorithms/closed_orbit/_ellipse_closed_orbit_finder.py
+++ b/xboa/algorithms/closed_orbit/_ellipse_closed_orbit_finder.py
@@ -173,8 +173,9 @@ class EllipseClosedOrbitFinder(object):
         if self.use_seed:
             hit_list.append(next_hit)
         while len(hit_list) < number_of_points:
-            hit_list += self.tracking.track_one(next_hit)[1:]
-            if hit_list[-1] == next_hit:
+            new_hits = self.tracking.track_one(next_hit)[1:]
+            hit_list += new_hits
+            if len(new_hits) == 0 or hit_list[-1] == next_hit:
                 raise RuntimeError("Tracking failed to generate an ellipse")
             next_hit = hit_list[-1]
         x_list = [[hit[var] for var in keys] for hit in hit_list]
-- 
2.43.0


From f705c87e91bc56e31ff32f886d15cbffa794a226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:03 +0000
Subject: [PATCH 42/52] fix: tracking processes could not be pickled on python
 3 (files opened in text mode)

---
 xboa/tracking/tracking_process/_bsub_process.py     |  2 +-
 xboa/tracking/tracking_process/_tracking_process.py | 13 +++++++------
 .../tracking_process/xboa_tracking_process.py       |  7 +++----
 3 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/xboa/tracking/tracking_process/_bsub_process.py b/xboa/tracking/tracking_process/_bsub_process.py
index eb455ae..90c0e24 100644
--- a/xboa/tracking/tracking_process/_bsub_process.py
+++ b/xboa/tracking/tracking_process/_bsub_process.py
@@ -46,7 +46,7 @@ class BSubProcess(TrackingProcess):
         self.queue = queue
         self.job_time = job_time
         out_path = os.path.join(self.out_dir, self.pickle_jar)
-        process_out = open(out_path, "w")
+        process_out = open(out_path, "wb")
         pickle.dump(self, process_out)
         process_out.close()
 
diff --git a/xboa/tracking/tracking_process/_tracking_process.py b/xboa/tracking/tracking_process/_tracking_process.py
index cde9ce5..630f4e5 100644
--- a/xboa/tracking/tracking_process/_tracking_process.py
+++ b/xboa/tracking/tracking_process/_tracking_process.py
@@ -69,8 +69,9 @@ class TrackingProcess(object):
         Set the hit list over which the TrackingProcess should run
         """
         self.hit_list = hit_list
-        process_out = open(os.path.join(self.out_dir, self.pickle_jar), "w")
-        pickle.dump(self, process_out)
+        path = os.path.join(self.out_dir, self.pickle_jar)
+        with open(path, "wb") as process_out:
+            pickle.dump(self, process_out)
 
     def start(self):
         """
@@ -139,8 +140,8 @@ class TrackingProcess(object):
         if not os.path.exists(return_path):
             raise RuntimeError("The TrackingProcess finished without leaving "+\
                                "a return value")
-        fin = open(return_path)
-        self.return_value = pickle.load(fin)
+        with open(return_path, "rb") as fin:
+            self.return_value = pickle.load(fin)
         return self.return_value
 
     @classmethod
@@ -149,8 +150,8 @@ class TrackingProcess(object):
         Instantiate a TrackingProcess from pickle directory
         - pickle_dir: directory where pickled data is stored.
         """
-        fin = open(os.path.join(pickle_dir, cls.pickle_jar), "r")
-        process = pickle.load(fin)
+        with open(os.path.join(pickle_dir, cls.pickle_jar), "rb") as fin:
+            process = pickle.load(fin)
         return process
 
     # I know these names are inscrutable - but I couldn't resist. I like
diff --git a/xboa/tracking/tracking_process/xboa_tracking_process.py b/xboa/tracking/tracking_process/xboa_tracking_process.py
index 494b9e4..c2ced73 100755
--- a/xboa/tracking/tracking_process/xboa_tracking_process.py
+++ b/xboa/tracking/tracking_process/xboa_tracking_process.py
@@ -40,15 +40,14 @@ def main():
     """Run the TrackingProcess"""
     args = parse_args()
     out_dir = args.out_dir 
-    fin = open(os.path.join(out_dir, TrackingProcess.pickle_jar))
-    tracking_process = pickle.load(fin)
+    tracking_process = TrackingProcess.new_from_pickle(out_dir)
     # clear any old data; always want to get new data
     if os.path.exists(TrackingProcess.pickle_sandwich):
         os.remove(TrackingProcess.pickle_sandwich)
     # run the data and dump the output
     hits = tracking_process.run()
-    fout = open(os.path.join(out_dir, TrackingProcess.pickle_sandwich), "w")
-    pickle.dump(hits, fout)
+    with open(os.path.join(out_dir, TrackingProcess.pickle_sandwich), "wb") as fout:
+        pickle.dump(hits, fout)
 
 if __name__ == "__main__":
     main()
-- 
2.43.0


From 28a17cd181fd5eb47e7d513f0bea578e2ca881e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:03 +0000
Subject: [PATCH 43/52] fix: a tracking process removed hits_out.pickle from
 the working directory instead of its own old output, so a restarted process
 that failed returned stale hits

---
 xboa/tracking/tracking_process/xboa_tracking_process.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/xboa/tracking/tracking_process/xboa_tracking_process.py b/xboa/tracking/tracking_process/xboa_tracking_process.py
index c2ced73..99edcb7 100755
--- a/xboa/tracking/tracking_process/xboa_tracking_process.py
+++ b/xboa/tracking/tracking_process/xboa_tracking_process.py
@@ -42,11 +42,12 @@ def main():
     out_dir = args.out_dir 
     tracking_process = TrackingProcess.new_from_pickle(out_dir)
     # clear any old data; always want to get new data
-    if os.path.exists(TrackingProcess.pickle_sandwich):
-        os.remove(TrackingProcess.pickle_sandwich)
+    out_path = os.path.join(out_dir, TrackingProcess.pickle_sandwich)
+    if os.path.exists(out_path):
+        os.remove(out_path)
     # run the data and dump the output
     hits = tracking_process.run()
-    with open(os.path.join(out_dir, TrackingProcess.pickle_sandwich), "wb") as fout:
+    with open(out_path, "wb") as fout:
         pickle.dump(hits, fout)
 
 if __name__ == "__main__":
-- 
2.43.0


From dd76a5018217063f00b15e5e935d84c11add4c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:03 +0000
Subject: [PATCH 44/52] fix: MultiTrack could not split hits on python 3 (float
 slice index) and its track_one used an attribute that does not exist

---
 xboa/tracking/_multitrack.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/xboa/tracking/_multitrack.py b/xboa/tracking/_multitrack.py
index db7b933..0cdfc7a 100644
--- a/xboa/tracking/_multitrack.py
+++ b/xboa/tracking/_multitrack.py
@@ -65,7 +65,7 @@ class MultiTrack(TrackingBase):
         self.job_list = []
         self.last = []
         n_hits = len(hit_list)
-        n_hits_per_process = n_hits/int(self.n_processes)
+        n_hits_per_process = n_hits//int(self.n_processes)
         remainder = n_hits % int(self.n_processes)
         
         for i in range(self.n_processes):
@@ -87,7 +87,9 @@ class MultiTrack(TrackingBase):
         """
         Just call track_one on the hit
         """
-        self.tracking.track_one(a_hit)
+        hits_out = self.tracking_job.tracking.track_one(a_hit)
+        self.last = [hits_out]
+        return hits_out
 
     def track_many(self, hit_list):
         """
-- 
2.43.0


From 9f95192034db4aa31bbfc19a22a51571d3763746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:12 +0000
Subject: [PATCH 45/52] fix: a ThisNodeProcess that had been started could not
 be given new hits or copied (the subprocess cannot be pickled)

---
 xboa/tracking/tracking_process/_this_node_process.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/xboa/tracking/tracking_process/_this_node_process.py b/xboa/tracking/tracking_process/_this_node_process.py
index 3d9fda2..8aee7cd 100644
--- a/xboa/tracking/tracking_process/_this_node_process.py
+++ b/xboa/tracking/tracking_process/_this_node_process.py
@@ -43,6 +43,14 @@ class ThisNodeProcess(TrackingProcess):
         TrackingProcess.__init__(self, tracking)
         self.proc = None
 
+    def __getstate__(self):
+        """
+        The running subprocess belongs to this process, and can't be pickled
+        """
+        state = dict(self.__dict__)
+        state["proc"] = None
+        return state
+
     def start(self):
         """
         Start the tracking by opening a subprocess and calling run()
-- 
2.43.0


From c5f5921a34788aa4dea3c281d8d12960bcfaaa9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:54 +0000
Subject: [PATCH 46/52] fix: MARS particle 37 (anti-Xi0) had no entry in
 mars_pid_to_pdg, so MARS files with one could not be read

---
 xboa/common/_common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xboa/common/_common.py b/xboa/common/_common.py
index ab3a0a0..a5b4e8a 100644
--- a/xboa/common/_common.py
+++ b/xboa/common/_common.py
@@ -79,7 +79,7 @@ for k,v in icool_pid_to_pdg.items():
 #* 22  23  24 25  26  27   28   29   30   31   32   33   34  35   36   37   38    39    40
 #* K0L K0S K0 AK0 LAM ALAM SIG+ SIG0 SIG- nbar KSI0 KSI- OM- sib- si0b sib+ AKSI0 ksib+ omb+
 
-mars_pid_to_pdg  = {1:2212, 2:2112, 3:211, 4:-211, 5:321, 6:-321, 7:-13, 8:13, 9:22, 10:11, 11:-11, 12:-2212, 13:111, 14:1000010020, 15:1000010030, 16:1000020030, 17:1000020040, 18:14, 19:-14, 20:12, 21:-12, 22:130, 23:310, 24:311, 25:-311,26:3122,27:-3122,28:0,29:0,30:0,31:-2112,32:0,33:0,34:0,35:0,36:0,38:0,39:0,40:0};
+mars_pid_to_pdg  = {1:2212, 2:2112, 3:211, 4:-211, 5:321, 6:-321, 7:-13, 8:13, 9:22, 10:11, 11:-11, 12:-2212, 13:111, 14:1000010020, 15:1000010030, 16:1000020030, 17:1000020040, 18:14, 19:-14, 20:12, 21:-12, 22:130, 23:310, 24:311, 25:-311,26:3122,27:-3122,28:0,29:0,30:0,31:-2112,32:0,33:0,34:0,35:0,36:0,37:0,38:0,39:0,40:0};
 pdg_pid_to_mars  = {}
 for k,v in mars_pid_to_pdg.items():
   pdg_pid_to_mars[v] = k;
-- 
2.43.0


From e3c311d94cc23706f4d42bd1e8420321e0d8c79f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:54 +0000
Subject: [PATCH 47/52] fix: the anti-K0 had a mass and a MARS number but no
 charge and no name

---
 xboa/common/_common.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xboa/common/_common.py b/xboa/common/_common.py
index a5b4e8a..5a3fcd7 100644
--- a/xboa/common/_common.py
+++ b/xboa/common/_common.py
@@ -86,9 +86,9 @@ for k,v in mars_pid_to_pdg.items():
 
 pdg_pid_to_mass  = {0:0, 11:0.510998910, 12:0., 13:105.6583668, 14:0., 22:0., 111:134.9766, 211:139.57018, 321:493.667, 2112:939.56536, 2212:938.271996, 1000010020:1876.1239, 1000010030:2809.432, 1000020030:2809.41346, 1000020040: 3728.4001, 130:497.614, 310:497.614, 311:497.614, 3122:1115.683}
 pdg_pid_to_name  = {0:'none', 11:'e-', 12:'electron neutrino', 13:'mu-', 14:'muon neutrino', 22:'photon', 111:'pi0', 211:'pi+', 321:'K+', 2112:'neutron', 2212:'proton', 1000010020:'deuterium', 1000010030:'tritium', 1000020030:'3He', 1000020040:'4He', 130:'K0L', 310:'K0S', 311:'K0', 3122:'lambda',
--11:'e+', -12:'electron antineutrino', -13:'mu+', -14:'muon antineutrino', -211:'pi-', -321:'K-', -2112:'antineutron', -2212:'antiproton', -3122:'antilambda'}
+-11:'e+', -12:'electron antineutrino', -13:'mu+', -14:'muon antineutrino', -211:'pi-', -321:'K-', -311:'K0bar', -2112:'antineutron', -2212:'antiproton', -3122:'antilambda'}
 
-pdg_pid_to_charge  = {0:0, 11:-1, 12:0, 13:-1, 14:0, 22:0, 111:0, 211:+1, 321:+1, 2112:0, 2212:+1, 1000010020:+1, 1000010030:+1, 1000020030:+2, 1000020040:+2, 130:0, 310:0, 311:0, 3122:0, -11:+1, -12:0, -13:+1, -14:0, -211:-1, -321:-1, -2112:0, -2212:-1, -3122:0}
+pdg_pid_to_charge  = {0:0, 11:-1, 12:0, 13:-1, 14:0, 22:0, 111:0, 211:+1, 321:+1, 2112:0, 2212:+1, 1000010020:+1, 1000010030:+1, 1000020030:+2, 1000020040:+2, 130:0, 310:0, 311:0, 3122:0, -11:+1, -12:0, -13:+1, -14:0, -211:-1, -321:-1, -311:0, -2112:0, -2212:-1, -3122:0}
 
 
 constants        = {'c_light':299.792458, 'pi':3.14159265,'echarge':1}
-- 
2.43.0


From c0ad1d2a573e1281665301bc0e52daf9b895a85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:54 +0000
Subject: [PATCH 48/52] fix: reading reconstructed MAUS hits ended with
 RuntimeError (StopIteration raised inside a generator)

---
 xboa/hit/factory/_maus_root_recon_hit_factory.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/xboa/hit/factory/_maus_root_recon_hit_factory.py b/xboa/hit/factory/_maus_root_recon_hit_factory.py
index 3d9872c..71525d0 100644
--- a/xboa/hit/factory/_maus_root_recon_hit_factory.py
+++ b/xboa/hit/factory/_maus_root_recon_hit_factory.py
@@ -129,7 +129,6 @@ class MausRootReconHitFactory(HitFactoryBase):
                 hit["spill"] = self.spill_number
                 hit["particle_number"] = track_i
                 yield hit
-        raise StopIteration("Out of events")
 
     def _read_tof_01_space_points(self, tof_event):
         """
-- 
2.43.0


From 3af4d9c3293f26948b88848b12c16a1ab9dcc963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:54 +0000
Subject: [PATCH 49/52] fix: every MAUS ROOT primary was given charge 0 (looked
 up by charge, not by particle type)

---
 xboa/hit/factory/_maus_root_hit_factory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xboa/hit/factory/_maus_root_hit_factory.py b/xboa/hit/factory/_maus_root_hit_factory.py
index 2bcb986..783dc58 100644
--- a/xboa/hit/factory/_maus_root_hit_factory.py
+++ b/xboa/hit/factory/_maus_root_hit_factory.py
@@ -171,7 +171,7 @@ class MausRootHitFactory(HitFactoryBase):
                 hit["mass"] = 0.
                 self.bad_pid(hit["pid"])
             try:
-                hit["charge"] = common.pdg_pid_to_charge[hit["charge"]]
+                hit["charge"] = common.pdg_pid_to_charge[hit["pid"]]
             except KeyError:
                 hit["charge"] = 0.
                 self.bad_pid(hit["pid"])
-- 
2.43.0


From c61e3f00bffa227090bdce531fa3f79bbf763cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:07 +0000
Subject: [PATCH 50/52] fix: number_of_hits counted MAUS hits that fail
 test_function, and was applied to each file separately

---
 xboa/bunch/_bunch.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/xboa/bunch/_bunch.py b/xboa/bunch/_bunch.py
index 69f874e..e52ee2c 100644
--- a/xboa/bunch/_bunch.py
+++ b/xboa/bunch/_bunch.py
@@ -306,6 +306,8 @@ class Bunch:
                                           list_of_maus_types=[file_type_string],
                                           test_function=test_function
                                   )
+      if number_of_hits >= 0: # in all files together
+          hit_list = hit_list[:number_of_hits]
       return Bunch.new_from_hits(hit_list)
     elif file_type_string.find('maus_') > -1:
       hit_list = []
@@ -313,10 +315,11 @@ class Bunch:
           print("Loading", file_name)
           hit_list += Bunch.read_maus_json_file(
                                           file_name,
-                                          number_of_hits,
                                           list_of_maus_types=[file_type_string]
                                   )
       hit_list = [hit for hit in hit_list if test_function == None or test_function(hit)]
+      if number_of_hits >= 0: # of those that pass the test, in all files together
+          hit_list = hit_list[:number_of_hits]
       return Bunch.new_from_hits(hit_list)
     bunch = Bunch()
     bad_event_counter = 0
-- 
2.43.0


From 6efec17a549758a600981e4c57ffd322271fb971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:08 +0000
Subject: [PATCH 51/52] fix: DecoupledTransferMatrix failed for every matrix on
 python 3 (float division in sizes) and took odd sizes for even ones

---
 xboa/algorithms/decoupled_transfer_matrix.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xboa/algorithms/decoupled_transfer_matrix.py b/xboa/algorithms/decoupled_transfer_matrix.py
index 8fd19eb..011886d 100644
--- a/xboa/algorithms/decoupled_transfer_matrix.py
+++ b/xboa/algorithms/decoupled_transfer_matrix.py
@@ -25,14 +25,14 @@ class DecoupledTransferMatrix(object):
         self.m = numpy.array(transfer_matrix)
         if self.m.shape[0] != self.m.shape[1]:
             raise ValueError("Transfer matrix was not square")
-        if (self.m.shape[0]/2)*2 != self.m.shape[0]:
+        if self.m.shape[0] % 2 != 0:
             raise ValueError("Transfer matrix had odd size (should be even)")
         det_m = numpy.linalg.det(self.m)
         if abs(det_m - 1) > self.det_tolerance:
             raise ValueError("Transfer matrix determinant deviated from 1 by "+\
               str(det_m - 1)+" - DecoupledTransferMatrix.det_tolerance was "+\
               str(self.det_tolerance) )
-        self.dim = self.m.shape[0]/2
+        self.dim = self.m.shape[0]//2
         self.m_evalue, self.m_evector = numpy.linalg.eig(self.m)
         self.t_evector = None
         self.t_evalue = None
-- 
2.43.0


From 5cd03e6578f5c5315836dd3f9e6c4cf2814b991f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:25 +0000
Subject: [PATCH 52/52] fix: DecoupledTransferMatrix took the eigenvector of
 the wrong axis (nan for uncoupled 4D matrices), did not normalise it (the
 ellipse did not have the eigenemittances asked for) and gave the phase
 advance the wrong sign when beta sin(phase) < 0

---
 xboa/algorithms/decoupled_transfer_matrix.py | 45 +++++++++++++-------
 1 file changed, 30 insertions(+), 15 deletions(-)

diff --git a/xboa/algorithms/decoupled_transfer_matrix.py b/xboa/algorithms/decoupled_transfer_matrix.py
index 011886d..3444ad0 100644
--- a/xboa/algorithms/decoupled_transfer_matrix.py
+++ b/xboa/algorithms/decoupled_transfer_matrix.py
@@ -52,33 +52,48 @@ class DecoupledTransferMatrix(object):
         self.v_t = numpy.zeros([self.dim*2, self.dim*2]) # real
         for i in range(self.dim):
             j = 2*i
-            evector = numpy.transpose(self.m_evector)[i]
+            self._normalise_evectors(j)
+            evector = numpy.transpose(self.m_evector)[j]
             phi_i = numpy.angle(evector[j])
             exp_phi_i = numpy.exp(1j*phi_i)
-            try:
-                ratio = evector[j+1]/evector[j]
-                beta_i = 1./numpy.imag(ratio)
-                alpha_i = -beta_i * numpy.real(ratio)
-            except FloatingPointError:
-                beta_i = -1.
-                alpha_i = 0.
+            # area swept in the plane of this axis; if there is none, any axes
+            # in the eigenspace will do
+            area = abs(numpy.imag(numpy.conj(evector[j])*evector[j+1]))
+            beta_i = 1.
+            alpha_i = 0.
+            if area != 0.:
+                beta_i = abs(evector[j])**2/area
+                alpha_i = -numpy.real(numpy.conj(evector[j])*evector[j+1])/area
             phase_i = numpy.angle(self.m_evalue[j])
             self.t_evector[j,   j] = cmath.sqrt(beta_i)*exp_phi_i
             self.t_evector[j+1, j] = 1./cmath.sqrt(beta_i)*(-alpha_i+1j)*exp_phi_i
             self.t_evector[j,   j+1] = numpy.conj(self.t_evector[j, j])
             self.t_evector[j+1, j+1] = numpy.conj(self.t_evector[j+1, j])
             self.phase[i] = phase_i
-            sign = 1.
-            if beta_i < 0:
-                sign = -1.
-            self.v_t[j, j] = sign*beta_i
-            self.v_t[j, j+1] = -sign*alpha_i
-            self.v_t[j+1, j] = -sign*alpha_i
-            self.v_t[j+1, j+1] = sign*(1+alpha_i*alpha_i)/beta_i
+            self.v_t[j, j] = beta_i
+            self.v_t[j, j+1] = -alpha_i
+            self.v_t[j+1, j] = -alpha_i
+            self.v_t[j+1, j+1] = (1+alpha_i*alpha_i)/beta_i
         self.r = numpy.dot(self.m_evector, numpy.linalg.inv(self.t_evector))
         r_inv = numpy.linalg.inv(self.r)
         self.t = numpy.dot(r_inv, numpy.dot(self.m, self.r))
 
+    def _normalise_evectors(self, j):
+        """
+        Eigenvectors j and j+1 are a conjugate pair. Put the one that turns in
+        the positive sense first and scale both, so that r is symplectic.
+        """
+        evector = numpy.transpose(self.m_evector)[j]
+        area = 0. # swept in all of the planes
+        for k in range(0, 2*self.dim, 2):
+            area += numpy.imag(numpy.conj(evector[k])*evector[k+1])
+        if area == 0.:
+            raise ValueError("Transfer matrix has no closed ellipse")
+        if area < 0.:
+            self.m_evalue[[j, j+1]] = self.m_evalue[[j+1, j]]
+            self.m_evector[:, [j, j+1]] = self.m_evector[:, [j+1, j]]
+        self.m_evector[:, [j, j+1]] /= abs(area)**0.5
+
     def get_v_m(self, eigen_emittances):
         """
         Get the periodic ellipse to the transfer matrix equation
-- 
2.43.0

