From 83075cb3076c69d71c2b7b4ba08db677026fed72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:33 +0000
Subject: [PATCH 01/89] fix: generate code for subcycles

A suite with a subcycle could not be generated: the loop index variable was
created without a legal source (it needed an intent), was never declared in the
group cap and the loop property called itself.
---
 scripts/suite_objects.py | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/scripts/suite_objects.py b/scripts/suite_objects.py
index 4fac98b..86a74d5 100755
--- a/scripts/suite_objects.py
+++ b/scripts/suite_objects.py
@@ -1964,7 +1964,7 @@ class VerticalLoop(SuiteObject):
         for item in self.parts:
             item.write(outfile, errcode, errmsg, indent+1)
         # end for
-        outfile.write('end do', 2)
+        outfile.write('end do', indent)
 
     @property
     def dimension_name(self):
@@ -1979,17 +1979,17 @@ class Subcycle(SuiteObject):
     def __init__(self, sub_xml, context, parent, run_env):
         name = sub_xml.get('name', None) # Iteration count
         loop_extent = sub_xml.get('loop', "1") # Number of iterations
+        self._loop = loop_extent
         # See if our loop variable is an interger or a variable
         try:
             loop_int = int(loop_extent) # pylint: disable=unused-variable
-            self._loop = loop_extent
             self._loop_var_int = True
         except ValueError:
             self._loop_var_int = False
-            lvar = parent.find_variable(standard_name=self.loop, any_scope=True)
+            lvar = parent.find_variable(standard_name=loop_extent, any_scope=True)
             if lvar is None:
                 emsg = "Subcycle, {}, specifies {} iterations but {} not found"
-                raise CCPPError(emsg.format(name, self.loop, self.loop))
+                raise CCPPError(emsg.format(name, loop_extent, loop_extent))
             # end if
             parent.add_call_list_variable(lvar)
         # end try
@@ -2004,12 +2004,12 @@ class Subcycle(SuiteObject):
         if self.name is None:
             self.name = "subcycle_index{}".format(level)
         # end if
-        # Create a variable for the loop index
-        self.add_variable(Var({'local_name':self.name,
-                               'standard_name':'loop_variable',
-                               'type':'integer', 'units':'count',
-                               'dimensions':'()'}, _API_SOURCE, self.run_env),
-                          self.run_env)
+        # Create a (group local) variable for the loop index
+        group.add_variable(Var({'local_name':self.name,
+                                'standard_name':'loop_variable_'+self.name,
+                                'type':'integer', 'units':'count',
+                                'dimensions':'()'}, _API_LOCAL, self.run_env),
+                           self.run_env, exists_ok=True)
         # Handle all the suite objects inside of this subcycle
         scheme_mods = set()
         for item in self.parts:
@@ -2028,15 +2028,18 @@ class Subcycle(SuiteObject):
         for item in self.parts:
             item.write(outfile, errcode, errmsg, indent+1)
         # end for
-        outfile.write('end do', 2)
+        outfile.write('end do', indent)
 
     @property
     def loop(self):
         """Return the loop value or variable local_name"""
-        lvar = self.find_variable(standard_name=self.loop, any_scope=True)
+        if self._loop_var_int:
+            return self._loop
+        # end if
+        lvar = self.find_variable(standard_name=self._loop, any_scope=True)
         if lvar is None:
             emsg = "Subcycle, {}, specifies {} iterations but {} not found"
-            raise CCPPError(emsg.format(self.name, self.loop, self.loop))
+            raise CCPPError(emsg.format(self.name, self._loop, self._loop))
         # end if
         lname = lvar.get_prop_value('local_name')
         return lname
-- 
2.43.0


From db0d639bbc3b5207271ba2f0c244c113d2ecd86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:11 +0000
Subject: [PATCH 02/89] fix: make threaded region check compile and detect
 worker threads

The check that init/finalize etc. are not called from a threaded region used
omp_get_thread_num without a declaration (no implicit type with -fopenmp) and
did not refuse worker thread 1.
---
 scripts/suite_objects.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/scripts/suite_objects.py b/scripts/suite_objects.py
index 86a74d5..f44f788 100755
--- a/scripts/suite_objects.py
+++ b/scripts/suite_objects.py
@@ -2130,8 +2130,12 @@ class Group(SuiteObject):
 ! ========================================================================
 '''
 
+    __thread_use = CodeBlock([('#ifdef _OPENMP', -1),
+                              ('use omp_lib, only: omp_get_thread_num', 1),
+                              ('#endif', -1)])
+
     __thread_check = CodeBlock([('#ifdef _OPENMP', -1),
-                                ('if (omp_get_thread_num() > 1) then', 1),
+                                ('if (omp_get_thread_num() > 0) then', 1),
                                 ('{errcode} = 1', 2),
                                 (('{errmsg} = "Cannot call {phase} routine '
                                   'from a threaded region"'), 2),
@@ -2484,6 +2488,10 @@ class Group(SuiteObject):
             slen = ' '*(modmax - len(smod))
             outfile.write(scheme_use.format(smod, slen, sname), indent+1)
         # end for
+        # The threaded region check (below) needs the thread number function
+        if not self.run_phase():
+            Group.__thread_use.write(outfile, indent, {})
+        # end if
         # Look for any DDT types
         call_vars = self.call_list.variable_list()
         self._ddt_library.write_ddt_use_statements(call_vars, outfile,
-- 
2.43.0


From 2eba9df54d5574daaea82f2ee136f44c8ed46101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:46 +0000
Subject: [PATCH 03/89] fix: call non-run phases in suite order

The register, init, timestep_init, timestep_final and final entry points were
called in the order in which the scheme metadata files were given on the
command line instead of the order in which the suite lists the schemes.
---
 scripts/ccpp_suite.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/scripts/ccpp_suite.py b/scripts/ccpp_suite.py
index d2634c8..09f32f5 100644
--- a/scripts/ccpp_suite.py
+++ b/scripts/ccpp_suite.py
@@ -426,19 +426,18 @@ character(len=16) :: {css_var_name} = '{state}'
         self.__ddt_library = ddt_library
         # Collect all relevant schemes
         # For all groups, find associated init and final methods
-        scheme_set = set()
+        # (keep them in the order in which the suite lists them)
+        suite_schemes = []
         for group in self.groups:
             for scheme in group.schemes():
-                scheme_set.add(scheme.name)
+                if scheme.name not in suite_schemes:
+                    suite_schemes.append(scheme.name)
+                # end if
             # end for
         # end for
-        no_scheme_entries = {} # Skip schemes that are not in this suite
-        for module in scheme_library:
-            if module in scheme_set:
-                scheme_entries = scheme_library[module]
-            else:
-                scheme_entries = no_scheme_entries
-            # end if
+        no_scheme_entries = {} # Skip schemes which have no metadata
+        for module in suite_schemes:
+            scheme_entries = scheme_library.get(module, no_scheme_entries)
             for phase in self._full_phases:
                 if phase in scheme_entries:
                     header = scheme_entries[phase]
@@ -450,7 +449,7 @@ character(len=16) :: {css_var_name} = '{state}'
                         scheme = Scheme(sxml, self.__context, pgroup, run_env)
                         pgroup.add_part(scheme)
                     # end if (no else, scheme is already in group)
-                # end if (no else, phase not in scheme set)
+                # end if (no else, scheme does not have phase)
             # end for
         # end for
         # Grab the host model argument list
-- 
2.43.0


From bf78b991c5d1d1e3c69b6b49ce6b976a588b5a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:44 +0000
Subject: [PATCH 04/89] fix: pass transformed and conditional variables
 correctly through group caps

Variables with a kind, unit or vertical transform were returned to the
host as uninitialized data for intent(out) arguments, kind transforms and
several schemes with different local names did not compile.
---
 scripts/metavar.py       |  14 +-
 scripts/suite_objects.py | 308 +++++++++++++++++++++++----------------
 2 files changed, 192 insertions(+), 130 deletions(-)

diff --git a/scripts/metavar.py b/scripts/metavar.py
index 35878bc..43abff3 100755
--- a/scripts/metavar.py
+++ b/scripts/metavar.py
@@ -1019,10 +1019,20 @@ class Var:
                     conditional += item
                 except ValueError:
                     dvar = None
-                    for vdict in vdicts:
-                        dvar = vdict.find_variable(standard_name=item, any_scope=True) # or any_scope=False ?
+                    # Prefer a variable (name) known to one of the dictionaries
+                    # themselves over one known to an enclosing scope
+                    for any_scope in (False, True):
+                        for vdict in vdicts:
+                            dvar = vdict.find_variable(standard_name=item,
+                                                       any_scope=any_scope)
+                            if dvar:
+                                break
+                            # end if
+                        # end for
                         if dvar:
                             break
+                        # end if
+                    # end for
                     if not dvar:
                         raise Exception(f"Cannot find variable '{item}' for generating conditional for '{active}'")
                     conditional += dvar.get_prop_value('local_name')
diff --git a/scripts/suite_objects.py b/scripts/suite_objects.py
index f44f788..e309b06 100755
--- a/scripts/suite_objects.py
+++ b/scripts/suite_objects.py
@@ -42,6 +42,8 @@ _API_LOCAL_VAR_TYPES = [_API_LOCAL_VAR_NAME, _API_SUITE_VAR_NAME]
 _API_CONTEXT = ParseContext(filename="ccpp_suite.py")
 _API_SOURCE = ParseSource(_API_SOURCE_NAME, _API_SCHEME_VAR_NAME, _API_CONTEXT)
 _API_LOCAL = ParseSource(_API_SOURCE_NAME, _API_LOCAL_VAR_NAME, _API_CONTEXT)
+# Types for which a kind conversion is possible
+_NUMERIC_TYPES = ['real', 'integer', 'complex', 'logical']
 _API_TIMESPLIT_TAG = 'time_split'
 _API_PROCESSSPLIT_TAG = 'process_split'
 _API_LOGGING = init_log('ccpp_suite')
@@ -105,14 +107,15 @@ class CallList(VarDictionary):
         super().add_variable(newvar, run_env, exists_ok=exists_ok,
                              gen_unique=gen_unique, adjust_intent=adjust_intent)
 
-    def call_string(self, cldicts=None, is_func_call=False, subname=None, sub_lname_list=None):
+    def call_string(self, cldicts=None, is_func_call=False, subname=None, sub_lnames=None):
         """Return a dummy argument string for this call list.
         <cldict> may be a list of VarDictionary objects to search for
         local_names (default is to use self).
         <is_func_call> should be set to True to construct a call statement.
         If <is_func_call> is False, construct a subroutine dummy argument
         list.
-        <sub_lname_list> may be a list of local_name substitutions.
+        <sub_lnames> may be a dictionary of local_name substitutions
+        with the standard names of the substituted variables as keys.
         """
         arg_str = ""
         arg_sep = ""
@@ -142,11 +145,6 @@ class CallList(VarDictionary):
                         raise CCPPError(errmsg.format(stdname, clnames))
                     # end if
                     lname = dvar.get_prop_value('local_name')
-                    # Optional variables in the caps are associated with 
-                    # local pointers of <lname>_ptr
-                    if dvar.get_prop_value('optional'):
-                        lname = dummy+'_ptr'
-                    # end if
                 else:
                     cldict = None
                     aref = var.array_ref(local_name=dummy)
@@ -158,14 +156,11 @@ class CallList(VarDictionary):
                 # end if
                 # Modify Scheme call_list to handle local_name change for this var.
                 # Are there any variable transforms for this scheme?
-                # If so, change Var's local_name need to local dummy array containing
-                # transformed argument, var_trans_local.
-                if sub_lname_list:
-                    for (var_trans_local, var_lname, sname, rindices, lindices, compat_obj) in sub_lname_list:
-                        if (sname == stdname):
-                            lname = var_trans_local
-                        # end if
-                    # end for
+                # If so, the argument is the local variable containing the
+                # transformed quantity. Conditionally active variables are
+                # passed via a local pointer.
+                if sub_lnames:
+                    lname = sub_lnames.get(stdname, lname)
                 # end if
                 if is_func_call:
                     if cldicts is not None:
@@ -925,6 +920,12 @@ class SuiteObject(VarDictionary):
             else:
                 sdict = {'dimensions':new_dict_dims}
             # end if
+            # The parent call tree passes the variable as declared by its
+            # source, any kind transform happens at the scheme call.
+            if ((var.get_prop_value('type') in _NUMERIC_TYPES) and
+                (var.get_prop_value('kind') != dict_var.get_prop_value('kind'))):
+                sdict['kind'] = dict_var.get_prop_value('kind')
+            # end if
             found_var = self.parent.add_variable_to_call_tree(var,
                                                               subst_dict=sdict)
             if not match:
@@ -1136,6 +1137,8 @@ class Scheme(SuiteObject):
         self.__reverse_transforms = list()
         self._has_run_phase = True
         self.__optional_vars = list()
+        self.__conditional_vars = {}
+        self.__transform_lnames = {}
         super().__init__(name, context, parent, run_env, active_call_list=True)
 
     def update_group_call_list_variable(self, var):
@@ -1267,23 +1270,39 @@ class Scheme(SuiteObject):
                                                   vstdname))
                 # end if
             # end if
+            # Is this a conditionally allocated variable?
+            # If so, the group needs all variables that are part of the
+            # 'active' attribute conditional of this variable.
+            conditional = '.true.'
+            if var.get_prop_value('optional') and dict_var:
+                var_dicts = [self.__group.call_list] + self.__group.suite_dicts()
+                conditional, vars_needed = dict_var.conditional(var_dicts)
+                for var_needed in vars_needed:
+                    self.update_group_call_list_variable(var_needed)
+                # end for
+                if conditional != '.true.':
+                    self.__conditional_vars[vstdname] = dict_var
+                # end if
+            # end if
             # Are there any forward/reverse transforms for this variable?
-            has_transform = False
             if compat_obj is not None and (compat_obj.has_vert_transforms or
                                            compat_obj.has_unit_transforms or
                                            compat_obj.has_kind_transforms):
                 self.add_var_transform(var, compat_obj, vert_dim)
-                has_transform = True
             # end if
 
-            # Is this a conditionally allocated variable?
-            # If so, declare localpointer variable. This is needed to
+            # If this variable may be inactive (or if there is no such
+            # variable), declare a local pointer variable. This is needed to
             # pass inactive (not present) status through the caps.
             if var.get_prop_value('optional'):
-                newvar_ptr = var.clone(var.get_prop_value('local_name')+'_ptr')
-                self.__optional_vars.append([dict_var, var, newvar_ptr, has_transform])
+                if (dict_var is None) or (conditional != '.true.'):
+                    # Use the dimensions of the variable as passed
+                    pvar = self.call_list.find_variable(standard_name=vstdname,
+                                                        any_scope=False)
+                    ptr_name = self.__group.add_local_pointer(pvar)
+                    self.__optional_vars.append([dict_var, var, ptr_name])
+                # end if
             # end if
-
         # end for
         if self.needs_vertical is not None:
             self.parent.add_part(self, replace=True) # Should add a vloop
@@ -1587,39 +1606,40 @@ class Scheme(SuiteObject):
                 # end if
                 outfile.write('',indent)
 
-    def associate_optional_var(self, dict_var, var, var_ptr, has_transform, cldicts, indent, outfile):
+    def group_lname(self, stdname, cldicts):
+        """Return the local name of the variable with standard name, <stdname>,
+        in this Scheme's group."""
+        for cldict in cldicts:
+            dvar = cldict.find_variable(standard_name=stdname, any_scope=False)
+            if dvar is not None:
+                return dvar.get_prop_value('local_name')
+            # end if
+        # end for
+        emsg = "{}: '{}' not found in {}"
+        raise CCPPError(emsg.format(self.subroutine_name, stdname,
+                                    [x.name for x in cldicts]))
+
+    def pointer_target(self, var, cldicts):
+        """Return the name of the variable the local pointer for <var> should
+        be associated with (i.e., the transformed variable if there is one)"""
+        stdname = var.get_prop_value('standard_name')
+        if stdname in self.__transform_lnames:
+            return self.__transform_lnames[stdname]
+        # end if
+        return self.group_lname(stdname, cldicts)
+
+    def associate_optional_var(self, dict_var, var, ptr_name, cldicts, indent, outfile):
         """Write local pointer association for optional variables."""
         if (dict_var):
             (conditional, _) = dict_var.conditional(cldicts)
-            if (has_transform):
-                lname = var.get_prop_value('local_name')+'_local'
-            else:
-                lname = var.get_prop_value('local_name')
-            # end if
-            lname_ptr = var_ptr.get_prop_value('local_name')
+            lname = self.pointer_target(var, cldicts)
             outfile.write(f"if {conditional} then", indent)
-            outfile.write(f"{lname_ptr} => {lname}", indent+1)
+            outfile.write(f"{ptr_name} => {lname}", indent+1)
+            outfile.write("else", indent)
+            outfile.write(f"nullify({ptr_name})", indent+1)
             outfile.write(f"end if", indent)
         # end if
 
-    def assign_pointer_to_var(self, dict_var, var, var_ptr, has_transform, cldicts, indent, outfile):
-        """Assign local pointer to variable."""
-        if (dict_var):
-            intent = var.get_prop_value('intent')
-            if (intent == 'out' or intent == 'inout'):
-                (conditional, _) = dict_var.conditional(cldicts)
-                if (has_transform):
-                    lname = var.get_prop_value('local_name')+'_local'
-                else:
-                    lname = var.get_prop_value('local_name')
-                # end if
-                lname_ptr = var_ptr.get_prop_value('local_name')
-                outfile.write(f"if {conditional} then", indent)
-                outfile.write(f"{lname} = {lname_ptr}", indent+1)
-                outfile.write(f"end if", indent)
-            # end if
-        # end if
-
     def add_var_transform(self, var, compat_obj, vert_dim):
         """Register any variable transformation needed by <var> for this Scheme.
         For any transformation identified in <compat_obj>, create dummy variable
@@ -1630,7 +1650,7 @@ class Scheme(SuiteObject):
         # Do not let the Group manage this variable. Handle local var
         # when writing Group.
         prop_dict = var.copy_prop_dict()
-        prop_dict['local_name'] = var.get_prop_value('local_name')+'_local'
+        prop_dict['local_name'] = self.__group.transform_local_name(var)
         # This is a local variable.
         if 'intent' in prop_dict:
             del prop_dict['intent']
@@ -1639,12 +1659,12 @@ class Scheme(SuiteObject):
                               ParseSource(_API_SOURCE_NAME,
                                           _API_LOCAL_VAR_NAME, var.context),
                               self.run_env)
-        found = self.__group.find_variable(source_var=local_trans_var, any_scope=False)
-        if not found:
+        local_trans_lname = local_trans_var.get_prop_value('local_name')
+        if self.__group.add_transform_local(local_trans_var):
             lmsg = "Adding new local variable, '{}', for variable transform"
-            self.run_env.logger.info(lmsg.format(local_trans_var.get_prop_value('local_name')))
-            self.__group.transform_locals.append(local_trans_var)
+            self.run_env.logger.info(lmsg.format(local_trans_lname))
         # end if
+        self.__transform_lnames[var.get_prop_value('standard_name')] = local_trans_lname
 
         # Create indices (default) for transform.
         lindices   = [':']*var.get_rank()
@@ -1708,11 +1728,14 @@ class Scheme(SuiteObject):
                                               local_trans_var.get_prop_value('local_name'),
                                               lindices, rindices, compat_obj])
         # end if
-    def write_var_transform(self, var, dummy, rindices, lindices, compat_obj,
-                            outfile, indent, forward):
+
+    def write_var_transform(self, var, dummy, stdname, rindices, lindices, compat_obj,
+                            cldicts, outfile, indent, forward):
         """Write variable transformation needed to call this Scheme in <outfile>.
         <var> is the variable that needs transformation before and after calling Scheme.
         <dummy> is the local variable needed for the transformation..
+        <stdname> is the standard name of <var>, no transformation is done if this
+        variable is not active.
         <lindices> are the LHS indices of <dummy> for reverse transforms (before Scheme).
         <rindices> are the RHS indices of <var>   for reverse transforms (before Scheme).
         <lindices> are the LHS indices of <var>   for forward transforms (after  Scheme).
@@ -1737,7 +1760,14 @@ class Scheme(SuiteObject):
                                                 lvar_indices=rindices,
                                                 rvar_indices=lindices)
         # end if
-        outfile.write(stmt, indent)
+        if stdname in self.__conditional_vars:
+            (conditional, _) = self.__conditional_vars[stdname].conditional(cldicts)
+            outfile.write(f"if {conditional} then", indent)
+            outfile.write(stmt, indent+1)
+            outfile.write("end if", indent)
+        else:
+            outfile.write(stmt, indent)
+        # end if
 
     def write(self, outfile, errcode, errmsg, indent):
         # Unused arguments are for consistent write interface
@@ -1747,10 +1777,15 @@ class Scheme(SuiteObject):
         #    or our module
         cldicts = [self.__group, self.__group.call_list]
         cldicts.extend(self.__group.suite_dicts())
+        # Arguments which are passed via a local variable or pointer
+        sub_lnames = dict(self.__transform_lnames)
+        for (_, var, ptr_name) in self.__optional_vars:
+            sub_lnames[var.get_prop_value('standard_name')] = ptr_name
+        # end for
         my_args = self.call_list.call_string(cldicts=cldicts,
                                              is_func_call=True,
                                              subname=self.subroutine_name,
-                                             sub_lname_list = self.__reverse_transforms)
+                                             sub_lnames=sub_lnames)
         #
         outfile.write('', indent)
         outfile.write('if ({} == 0) then'.format(errcode), indent)
@@ -1784,9 +1819,8 @@ class Scheme(SuiteObject):
             # may have since changed. Here we need to use the standard_name
             # from <var> and replace its local_name with the local_name from the
             # Group's call_list.
-            lvar       = self.__group.call_list.find_variable(standard_name=var_sname)
-            lvar_lname = lvar.get_prop_value('local_name')
-            tstmt = self.write_var_transform(lvar_lname, dummy, rindices, lindices, compat_obj, outfile, indent+1, False)
+            lvar_lname = self.group_lname(var_sname, cldicts)
+            self.write_var_transform(lvar_lname, dummy, var_sname, rindices, lindices, compat_obj, cldicts, outfile, indent+1, False)
         # end for
         outfile.write('',indent+1)
         #
@@ -1795,8 +1829,8 @@ class Scheme(SuiteObject):
         if self.__optional_vars:
             outfile.write('! Associate conditional variables', indent+1)
         # end if 
-        for (dict_var, var, var_ptr, has_transform) in self.__optional_vars:
-            tstmt = self.associate_optional_var(dict_var, var, var_ptr, has_transform, cldicts, indent+1, outfile)
+        for (dict_var, var, ptr_name) in self.__optional_vars:
+            self.associate_optional_var(dict_var, var, ptr_name, cldicts, indent+1, outfile)
         # end for
         # 
         # Write the scheme call.
@@ -1809,18 +1843,6 @@ class Scheme(SuiteObject):
             outfile.write('',indent+1)
         # end if
         #
-        # Copy any local pointers.
-        #
-        first_ptr_declaration=True
-        for (dict_var, var, var_ptr, has_transform) in self.__optional_vars:
-            if first_ptr_declaration: 
-                outfile.write('! Copy any local pointers to dummy/local variables', indent+1)
-                first_ptr_declaration=False
-            # end if
-            tstmt = self.assign_pointer_to_var(dict_var, var, var_ptr, has_transform, cldicts, indent+1, outfile)
-        # end for
-        outfile.write('',indent+1)
-        #
         # Write any forward (post-Scheme) transforms.
         #
         if len(self.__forward_transforms) > 0:
@@ -1832,9 +1854,8 @@ class Scheme(SuiteObject):
             # may have since changed. Here we need to use the standard_name
             # from <var> and replace its local_name with the local_name from the
             # Group's call_list.
-            lvar       = self.__group.call_list.find_variable(standard_name=var_sname)
-            lvar_lname = lvar.get_prop_value('local_name')
-            tstmt = self.write_var_transform(lvar_lname, dummy, rindices, lindices, compat_obj, outfile, indent+1, True)
+            lvar_lname = self.group_lname(var_sname, cldicts)
+            self.write_var_transform(lvar_lname, dummy, var_sname, rindices, lindices, compat_obj, cldicts, outfile, indent+1, True)
         # end for
         outfile.write('', indent)
         outfile.write('end if', indent)
@@ -2188,6 +2209,7 @@ class Group(SuiteObject):
         self._set_state = None
         self._ddt_library = None
         self.transform_locals = list()
+        self.local_pointers = {}
 
     def phase_match(self, scheme_name):
         """If scheme_name matches the group phase, return the group and
@@ -2289,6 +2311,66 @@ class Group(SuiteObject):
             raise CCPPError(emsg)
         # end if
 
+    @staticmethod
+    def __same_declaration(var1, var2):
+        """Return True iff a local variable can be shared by <var1> and <var2>"""
+        for prop in ['type', 'kind', 'dimensions', 'optional']:
+            if var1.get_prop_value(prop) != var2.get_prop_value(prop):
+                return False
+            # end if
+        # end for
+        return True
+
+    def __unique_lname(self, prefix, var, used):
+        """Return a local name for a group-cap copy of or pointer to <var>.
+        The name begins with <prefix>. It may be shared with other variables in
+        <used> (a dictionary) only if those have the same declaration."""
+        lname = prefix
+        index = 0
+        while True:
+            if lname.lower() in used:
+                okay = Group.__same_declaration(used[lname.lower()], var)
+            else:
+                okay = ((self.call_list.find_local_name(lname) is None) and
+                        (self.find_local_name(lname) is None))
+            # end if
+            if okay:
+                return lname
+            # end if
+            index += 1
+            lname = f"{prefix}{index}"
+        # end while
+
+    def transform_local_name(self, var):
+        """Return a name for the local variable used to transform <var>"""
+        used = {x.get_prop_value('local_name').lower() : x
+                for x in self.transform_locals}
+        return self.__unique_lname(var.get_prop_value('local_name') + '_local',
+                                   var, used)
+
+    def add_transform_local(self, var):
+        """Make sure that <var> is declared as a local variable of this group.
+        Return True iff <var> is a new local variable."""
+        lname = var.get_prop_value('local_name').lower()
+        for tvar in self.transform_locals:
+            if tvar.get_prop_value('local_name').lower() == lname:
+                return False
+            # end if
+        # end for
+        self.transform_locals.append(var)
+        return True
+
+    def add_local_pointer(self, var):
+        """Make sure that this group has a local pointer suitable for <var>.
+        Return the name of the pointer."""
+        used = {x.lower() : y for x, y in self.local_pointers.items()}
+        lname = self.__unique_lname(var.get_prop_value('local_name') + '_ptr',
+                                    var, used)
+        if lname not in self.local_pointers:
+            self.local_pointers[lname] = var
+        # end if
+        return lname
+
     def analyze(self, phase, suite_vars, scheme_library, ddt_library,
                 check_suite_state, set_suite_state):
         """Analyze the Group's interface to prepare for writing"""
@@ -2382,8 +2464,6 @@ class Group(SuiteObject):
         subpart_scalar_vars = {}
         allocatable_var_set = set()
         optional_var_set = set()
-        pointer_var_set = list()
-        inactive_var_set = set()
         for item in [self]:# + self.parts:
             for var in item.declarations():
                 lname = var.get_prop_value('local_name')
@@ -2400,11 +2480,11 @@ class Group(SuiteObject):
                     dims = var.get_dimensions()
                     if (dims is not None) and dims:
                         if opt_var:
+                            # Optional arguments that are not requested by the
+                            # host are passed as null pointers
                             if (self.call_list.find_variable(standard_name=sname)):
                                 subpart_optional_vars[lname] = (var, item, opt_var)
                                 optional_var_set.add(lname)
-                            else:
-                                inactive_var_set.add(var)
                             # end if
                         else:
                             subpart_allocate_vars[lname] = (var, item, opt_var)
@@ -2415,45 +2495,6 @@ class Group(SuiteObject):
                     # end if
                 # end if
             # end for
-            # All optional dummy variables within group need to have 
-            # an associated pointer array declared. 
-            for cvar in self.call_list.variable_list():
-                opt_var = cvar.get_prop_value('optional')
-                if opt_var:
-                    name = cvar.get_prop_value('local_name')+'_ptr'
-                    kind = cvar.get_prop_value('kind')
-                    dims = cvar.get_dimensions()
-                    if cvar.is_ddt():
-                        vtype = 'type'
-                    else:
-                        vtype = cvar.get_prop_value('type')
-                    # end if
-                    if dims:
-                        dimstr = '(:' + ',:'*(len(dims) - 1) + ')'
-                    else:
-                        dimstr = ''
-                    # end if
-                    pointer_var_set.append([name,kind,dimstr,vtype])
-                # end if
-            # end for
-            # Any optional arguments that are not requested by the host need to have
-            # a local null pointer passed from the group to the scheme.
-            for ivar in inactive_var_set:
-                name = ivar.get_prop_value('local_name')+'_ptr'
-                kind = ivar.get_prop_value('kind')
-                dims = ivar.get_dimensions()
-                if ivar.is_ddt():
-                    vtype = 'type'
-                else:
-                    vtype = ivar.get_prop_value('type')
-                # end if
-                if dims:
-                    dimstr = '(:' + ',:'*(len(dims) - 1) + ')'
-                else:
-                    dimstr = ''
-                # end if
-                pointer_var_set.append([name,kind,dimstr,vtype])
-            # end for
             # Any arguments used in variable transforms before or after the
             # Scheme call? If so, declare local copy for reuse in the Group cap.
             for ivar in self.transform_locals:
@@ -2541,8 +2582,20 @@ class Group(SuiteObject):
                           target=target)
         # end for
         # Pointer variables
-        for (name, kind, dim, vtype) in pointer_var_set:
-            var.write_ptr_def(outfile, indent+1, name,  kind, dim, vtype)
+        for name, pvar in self.local_pointers.items():
+            dims = pvar.get_dimensions()
+            if dims:
+                dimstr = '(:' + ',:'*(len(dims) - 1) + ')'
+            else:
+                dimstr = ''
+            # end if
+            if pvar.is_ddt():
+                vtype = 'type'
+            else:
+                vtype = pvar.get_prop_value('type')
+            # end if
+            pvar.write_ptr_def(outfile, indent+1, name,
+                               pvar.get_prop_value('kind'), dimstr, vtype)
         # end for
         outfile.write('', 0)
         # Get error variable names
@@ -2598,7 +2651,7 @@ class Group(SuiteObject):
             alloc_str = self.allocate_dim_str(dims, var.context)
             outfile.write(alloc_stmt.format(lname, alloc_str), indent+1)
         # end for
-        for lname in optional_var_set:
+        for lname in sorted(optional_var_set):
             var = subpart_optional_vars[lname][0]
             dims = var.get_dimensions()
             alloc_str = self.allocate_dim_str(dims, var.context)
@@ -2631,17 +2684,16 @@ class Group(SuiteObject):
         for lname in sorted(allocatable_var_set):
             outfile.write('if (allocated({})) {} deallocate({})'.format(lname,' '*(20-len(lname)),lname), indent+1)
         # end for
-        for lname in optional_var_set:
+        for lname in sorted(optional_var_set):
             outfile.write('if (allocated({})) {} deallocate({})'.format(lname,' '*(20-len(lname)),lname), indent+1)
         # end for
         # Nullify local pointers
-        if pointer_var_set:
+        if self.local_pointers:
             outfile.write('\n! Nullify local pointers', indent+1)
         # end if
-        for (name, kind, dim, vtype) in pointer_var_set:
-            #cspace = ' '*(15-len(name))
+        for name in self.local_pointers:
             outfile.write('if (associated({})) {} nullify({})'.format(name,' '*(15-len(name)),name), indent+1)
-        # end fo
+        # end for
         # Deallocate suite vars
         if deallocate:
             for svar in suite_vars.variable_list():
-- 
2.43.0


From af13a14c33a85826ef1eb849bc1d6aebdd08fa5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:54 +0000
Subject: [PATCH 05/89] fix: keep intermediate components when referencing
 nested DDT fields

---
 scripts/ddt_library.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/ddt_library.py b/scripts/ddt_library.py
index 3542559..5d6e807 100644
--- a/scripts/ddt_library.py
+++ b/scripts/ddt_library.py
@@ -38,7 +38,7 @@ class VarDDT(Var):
         source = var_ref.source
         super().__init__(var_ref, source, run_env, context=source.context)
         # Find the correct place for <new_field>
-        if isinstance(var_ref, Var):
+        if not isinstance(var_ref, VarDDT):
             # We are at a top level DDT var, set our field
             self.__field = new_field
         else:
-- 
2.43.0


From 91f06bfdb617b781afcffc88af1f629aa4ec7316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:54 +0000
Subject: [PATCH 06/89] fix: use the array, not the array section, of host
 module variables

---
 scripts/host_model.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/scripts/host_model.py b/scripts/host_model.py
index c3beb44..3293c4a 100644
--- a/scripts/host_model.py
+++ b/scripts/host_model.py
@@ -195,6 +195,11 @@ class HostModel(VarDictionary):
             module = self.host_variable_module(name)
             used = self.__used_variables and (name in self.__used_variables)
             if module and used and (module != cap_modname):
+                # Only the array itself can be accessed from a module
+                aref = FORTRAN_SCALAR_REF_RE.match(name)
+                if aref is not None:
+                    name = aref.group(1).strip()
+                # end if
                 varset.add((module, name))
             # No else, either no module or a zero-length module name
             # End if
-- 
2.43.0


From dc070596cf8655656725ae88a68325f905ef6597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:59 +0000
Subject: [PATCH 07/89] fix: pass group variables with the host's units and
 pointer targets for scalars

Two schemes using the same quantity in units without a conversion between
them were refused although the host's units convert to both.
---
 scripts/metavar.py       | 6 +++++-
 scripts/suite_objects.py | 5 ++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/scripts/metavar.py b/scripts/metavar.py
index 43abff3..ed62ab6 100755
--- a/scripts/metavar.py
+++ b/scripts/metavar.py
@@ -1114,7 +1114,11 @@ class Var:
                 intent_str = f"intent({intent}){' '*(5 - len(intent))}"
             # end if
         elif not dummy:
-            intent_str = ' '*20
+            if target:
+                intent_str = 'target'.ljust(20)
+            else:
+                intent_str = ' '*20
+            # end if
         else:
             intent_str = ' '*13
         # end if
diff --git a/scripts/suite_objects.py b/scripts/suite_objects.py
index e309b06..4257548 100755
--- a/scripts/suite_objects.py
+++ b/scripts/suite_objects.py
@@ -921,7 +921,10 @@ class SuiteObject(VarDictionary):
                 sdict = {'dimensions':new_dict_dims}
             # end if
             # The parent call tree passes the variable as declared by its
-            # source, any kind transform happens at the scheme call.
+            # source, any unit or kind transform happens at the scheme call.
+            if var.get_prop_value('units') != dict_var.get_prop_value('units'):
+                sdict['units'] = dict_var.get_prop_value('units')
+            # end if
             if ((var.get_prop_value('type') in _NUMERIC_TYPES) and
                 (var.get_prop_value('kind') != dict_var.get_prop_value('kind'))):
                 sdict['kind'] = dict_var.get_prop_value('kind')
-- 
2.43.0


From f1b5db7b73963fdb5c95b36270ce9d0b0c01a194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:06 +0000
Subject: [PATCH 08/89] fix: allow the register phase of a suite to be called
 again

The state machine allows register in the uninitialized state, a second
call ended the program allocating the dynamic constituent array.
---
 scripts/host_cap.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/scripts/host_cap.py b/scripts/host_cap.py
index f1d2880..e663140 100644
--- a/scripts/host_cap.py
+++ b/scripts/host_cap.py
@@ -759,6 +759,10 @@ def write_host_cap(host_model, api, module_name, output_dir, run_env):
                     if not has_dyn_consts:
                         cap.comment("Suite does not return dynamic constituents; allocate to zero", 3)
                     # end if
+                    # The register phase may be called again
+                    cap.write(f"if (allocated({dyn_const_array})) then", 3)
+                    cap.write(f"deallocate({dyn_const_array})", 4)
+                    cap.write("end if", 3)
                     cap.write(f"allocate({dyn_const_array}({size_string[:-1]}))", 3)
                     if has_dyn_consts:
                         cap.comment("Pack the suite-level dynamic, run-time constituents array", 3)
-- 
2.43.0


From 7bba47834b061129aaef092d585bf73c688aef26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:49 +0000
Subject: [PATCH 09/89] fix: stop hash table iterator on a table without
 entries

---
 src/ccpp_hash_table.F90 | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ccpp_hash_table.F90 b/src/ccpp_hash_table.F90
index 147ca5f..b02c3c9 100644
--- a/src/ccpp_hash_table.F90
+++ b/src/ccpp_hash_table.F90
@@ -402,11 +402,14 @@ CONTAINS
       this%index = 0
       nullify(this%table_entry)
       do
+         if (this%index >= hash_table%table_size) then
+            ! There are no (more) entries in this table
+            this%index = 0
+            exit
+         end if
          this%index = this%index + 1
          if (associated(hash_table%table(this%index)%entry_value)) then
             exit
-         else if (this%index > hash_table%table_size) then
-            this%index = 0
          end if
       end do
    end subroutine hash_iterator_initialize
-- 
2.43.0


From 0ede9b59ba132a2dd75eee73d54d4f5427baa289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:12 +0000
Subject: [PATCH 10/89] fix: enclose active conditions in parentheses in group
 caps

---
 scripts/suite_objects.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/scripts/suite_objects.py b/scripts/suite_objects.py
index 4257548..493758d 100755
--- a/scripts/suite_objects.py
+++ b/scripts/suite_objects.py
@@ -1503,7 +1503,7 @@ class Scheme(SuiteObject):
                 tmp_indent = indent
                 if conditional != '.true.':
                     tmp_indent = indent + 1
-                    outfile.write(f"if {conditional} then", indent)
+                    outfile.write(f"if ({conditional}) then", indent)
                 # end if
                 outfile.write(f"! Assign value of {local_name} to {internal_var_lname}", tmp_indent)
                 outfile.write(f"{internal_var_lname} = {local_name}", tmp_indent)
@@ -1579,7 +1579,7 @@ class Scheme(SuiteObject):
             tmp_indent = indent
             if conditional != '.true.':
                 tmp_indent = indent + 1
-                outfile.write(f"if {conditional} then", indent)
+                outfile.write(f"if ({conditional}) then", indent)
             # end if
             outfile.write(f"! Check size of array {local_name}", tmp_indent)
             outfile.write(f"if (size({local_name}{dim_string}) /= {array_size}) then", tmp_indent)
@@ -1599,7 +1599,7 @@ class Scheme(SuiteObject):
                 tmp_indent = indent
                 if conditional != '.true.':
                     tmp_indent = indent + 1
-                    outfile.write(f"if {conditional} then", indent)
+                    outfile.write(f"if ({conditional}) then", indent)
                 # end if
                 outfile.write(f"! Assign lower/upper bounds of {local_name} to {internal_var_lname}", tmp_indent)
                 outfile.write(f"{internal_var_lname} = {local_name}{lbound_string}", tmp_indent)
@@ -1636,7 +1636,7 @@ class Scheme(SuiteObject):
         if (dict_var):
             (conditional, _) = dict_var.conditional(cldicts)
             lname = self.pointer_target(var, cldicts)
-            outfile.write(f"if {conditional} then", indent)
+            outfile.write(f"if ({conditional}) then", indent)
             outfile.write(f"{ptr_name} => {lname}", indent+1)
             outfile.write("else", indent)
             outfile.write(f"nullify({ptr_name})", indent+1)
@@ -1765,7 +1765,7 @@ class Scheme(SuiteObject):
         # end if
         if stdname in self.__conditional_vars:
             (conditional, _) = self.__conditional_vars[stdname].conditional(cldicts)
-            outfile.write(f"if {conditional} then", indent)
+            outfile.write(f"if ({conditional}) then", indent)
             outfile.write(stmt, indent+1)
             outfile.write("end if", indent)
         else:
-- 
2.43.0


From 73cef52e89752ff29e708d9d9ed493299b6d2052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:20 +0000
Subject: [PATCH 11/89] fix: accept any letter case in operators of active
 conditions

---
 scripts/parse_tools/fortran_conditional.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/parse_tools/fortran_conditional.py b/scripts/parse_tools/fortran_conditional.py
index b1ec7ee..4586fca 100755
--- a/scripts/parse_tools/fortran_conditional.py
+++ b/scripts/parse_tools/fortran_conditional.py
@@ -10,4 +10,4 @@ import re
 FORTRAN_CONDITIONAL_REGEX_WORDS = [' ', '(', ')', '==', '/=', '<=', '>=', '<', '>', '.eqv.', '.neqv.',
                                    '.true.', '.false.', '.lt.', '.le.', '.eq.', '.ge.', '.gt.', '.ne.',
                                    '.not.', '.and.', '.or.', '.xor.']
-FORTRAN_CONDITIONAL_REGEX = re.compile(r"[\w']+|" + "|".join([word.replace('(','\(').replace(')', '\)') for word in FORTRAN_CONDITIONAL_REGEX_WORDS]))
+FORTRAN_CONDITIONAL_REGEX = re.compile(r"[\w']+|" + "|".join([word.replace('(','\(').replace(')', '\)') for word in FORTRAN_CONDITIONAL_REGEX_WORDS]), re.IGNORECASE)
-- 
2.43.0


From dd29c67aa84213ba54554623a72cf1c3e236efcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:02 +0000
Subject: [PATCH 12/89] fix: initialise error variables of constituent methods
 before appending errors

---
 src/ccpp_constituent_prop_mod.F90 | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/ccpp_constituent_prop_mod.F90 b/src/ccpp_constituent_prop_mod.F90
index 1601957..75c89a4 100644
--- a/src/ccpp_constituent_prop_mod.F90
+++ b/src/ccpp_constituent_prop_mod.F90
@@ -1172,6 +1172,7 @@ CONTAINS
                  subname, errcode=errcode, errmsg=errmsg, caller=warn_func)
          end if
       else
+         call initialize_errvars(errcode, errmsg)
          call append_errvars(1,                                           &
               "WARNING: Model constituents not initialized",              &
               subname, errcode=errcode, errmsg=errmsg, caller=warn_func)
@@ -1288,6 +1289,7 @@ CONTAINS
       character(len=*), parameter     :: subname = 'ccp_model_const_find_const'
 
       nullify(cprop)
+      call initialize_errvars(errcode, errmsg)
 
       hval => this%hash_table%table_value(standard_name, errmsg=error)
       if (len_trim(error) > 0) then
@@ -1958,6 +1960,7 @@ CONTAINS
          call this%prop%standard_name(std_name, errcode, errmsg)
       else
          std_name = ''
+         call initialize_errvars(errcode, errmsg)
          call append_errvars(1, ": invalid constituent pointer",        &
               subname, errcode=errcode, errmsg=errmsg)
       end if
@@ -1981,6 +1984,7 @@ CONTAINS
          call this%prop%long_name(long_name, errcode, errmsg)
       else
          long_name = ''
+         call initialize_errvars(errcode, errmsg)
          call append_errvars(1, ": invalid constituent pointer",        &
               subname, errcode=errcode, errmsg=errmsg)
       end if
@@ -2004,6 +2008,7 @@ CONTAINS
          call this%prop%units(units, errcode, errmsg)
       else
          units = ''
+         call initialize_errvars(errcode, errmsg)
          call append_errvars(1, ": invalid constituent pointer",        &
               subname, errcode=errcode, errmsg=errmsg)
       end if
@@ -2029,6 +2034,7 @@ CONTAINS
          end if
       else
          vert_dim = ''
+         call initialize_errvars(errcode, errmsg)
          call append_errvars(1, ": invalid constituent pointer",        &
               subname, errcode=errcode, errmsg=errmsg)
       end if
@@ -2112,6 +2118,7 @@ CONTAINS
          index = this%prop%const_index(errcode, errmsg)
       else
          index = int_unassigned
+         call initialize_errvars(errcode, errmsg)
          call append_errvars(1, ": invalid constituent pointer",        &
               subname, errcode=errcode, errmsg=errmsg)
       end if
@@ -2134,6 +2141,7 @@ CONTAINS
          call this%prop%is_thermo_active(val_out, errcode, errmsg)
       else
          val_out = .false.
+         call initialize_errvars(errcode, errmsg)
          call append_errvars(1, ": invalid constituent pointer",        &
               subname, errcode=errcode, errmsg=errmsg)
       end if
@@ -2156,6 +2164,7 @@ CONTAINS
          call this%prop%is_water_species(val_out, errcode, errmsg)
       else
          val_out = .false.
+         call initialize_errvars(errcode, errmsg)
          call append_errvars(1, ": invalid constituent pointer",        &
               subname, errcode=errcode, errmsg=errmsg)
       end if
@@ -2178,6 +2187,7 @@ CONTAINS
          call this%prop%is_advected(val_out, errcode, errmsg)
       else
          val_out = .false.
+         call initialize_errvars(errcode, errmsg)
          call append_errvars(1, ": invalid constituent pointer",        &
               subname, errcode=errcode, errmsg=errmsg)
       end if
@@ -2200,6 +2210,7 @@ CONTAINS
          call this%prop%is_mass_mixing_ratio(val_out, errcode, errmsg)
       else
          val_out = .false.
+         call initialize_errvars(errcode, errmsg)
          call append_errvars(1, ": invalid constituent pointer",        &
               subname, errcode=errcode, errmsg=errmsg)
       end if
@@ -2222,6 +2233,7 @@ CONTAINS
          call this%prop%is_volume_mixing_ratio(val_out, errcode, errmsg)
       else
          val_out = .false.
+         call initialize_errvars(errcode, errmsg)
          call append_errvars(1, ": invalid constituent pointer",        &
               subname, errcode=errcode, errmsg=errmsg)
       end if
@@ -2244,6 +2256,7 @@ CONTAINS
          call this%prop%is_number_concentration(val_out, errcode, errmsg)
       else
          val_out = .false.
+         call initialize_errvars(errcode, errmsg)
          call append_errvars(1, ": invalid constituent pointer",        &
               subname, errcode=errcode, errmsg=errmsg)
       end if
@@ -2266,6 +2279,7 @@ CONTAINS
          call this%prop%is_dry(val_out, errcode, errmsg)
       else
          val_out = .false.
+         call initialize_errvars(errcode, errmsg)
          call append_errvars(1, ": invalid constituent pointer",        &
               subname, errcode=errcode, errmsg=errmsg)
       end if
@@ -2288,6 +2302,7 @@ CONTAINS
          call this%prop%is_moist(val_out, errcode, errmsg)
       else
          val_out = .false.
+         call initialize_errvars(errcode, errmsg)
          call append_errvars(1, ": invalid constituent pointer",        &
               subname, errcode=errcode, errmsg=errmsg)
       end if
@@ -2310,6 +2325,7 @@ CONTAINS
          call this%prop%is_wet(val_out, errcode, errmsg)
       else
          val_out = .false.
+         call initialize_errvars(errcode, errmsg)
          call append_errvars(1, ": invalid constituent pointer",        &
               subname, errcode=errcode, errmsg=errmsg)
       end if
@@ -2332,6 +2348,7 @@ CONTAINS
          call this%prop%minimum(val_out, errcode, errmsg)
       else
          val_out = kphys_unassigned
+         call initialize_errvars(errcode, errmsg)
          call append_errvars(1, ": invalid constituent pointer",        &
               subname, errcode=errcode, errmsg=errmsg)
       end if
@@ -2357,6 +2374,7 @@ CONTAINS
       if (associated(this%prop)) then
          call this%prop%set_minimum(min_value, errcode, errmsg)
       else
+         call initialize_errvars(errcode, errmsg)
          call append_errvars(1, ": invalid constituent pointer",        &
               subname, errcode=errcode, errmsg=errmsg)
       end if
@@ -2379,6 +2397,7 @@ CONTAINS
          call this%prop%molar_mass(val_out, errcode, errmsg)
       else
          val_out = kphys_unassigned
+         call initialize_errvars(errcode, errmsg)
          call append_errvars(1, ": invalid constituent pointer",        &
               subname, errcode=errcode, errmsg=errmsg)
       end if
@@ -2400,6 +2419,7 @@ CONTAINS
       if (associated(this%prop)) then
          call this%prop%set_molar_mass(molar_mass, errcode, errmsg)
       else
+         call initialize_errvars(errcode, errmsg)
          call append_errvars(1, ": invalid constituent pointer",        &
               subname, errcode=errcode, errmsg=errmsg)
       end if
@@ -2422,6 +2442,7 @@ CONTAINS
          call this%prop%default_value(val_out, errcode, errmsg)
       else
          val_out = kphys_unassigned
+         call initialize_errvars(errcode, errmsg)
          call append_errvars(1, ": invalid constituent pointer",        &
               subname, errcode=errcode, errmsg=errmsg)
       end if
@@ -2444,6 +2465,7 @@ CONTAINS
          call this%prop%has_default(val_out, errcode, errmsg)
       else
          val_out = .false.
+         call initialize_errvars(errcode, errmsg)
          call append_errvars(1, ": invalid constituent pointer",      &
               subname, errcode=errcode, errmsg=errmsg)
       end if
@@ -2523,6 +2545,7 @@ CONTAINS
             end if
          end if
       else
+         call initialize_errvars(errcode, errmsg)
          call append_errvars(1, ": invalid constituent pointer",         &
               subname, errcode=errcode, errmsg=errmsg)
       end if
@@ -2549,6 +2572,7 @@ CONTAINS
             this%prop%thermo_active = thermo_flag
          end if
       else
+         call initialize_errvars(errcode, errmsg)
          call append_errvars(1, ": invalid constituent pointer",         &
               subname, errcode=errcode, errmsg=errmsg)
       end if
@@ -2575,6 +2599,7 @@ CONTAINS
             this%prop%water_species = water_flag
          end if
       else
+         call initialize_errvars(errcode, errmsg)
          call append_errvars(1, ": invalid constituent pointer",        &
               subname, errcode=errcode, errmsg=errmsg)
       end if
-- 
2.43.0


From 126690e7933911f985089ad87cc7f733cb1dcf37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:02 +0000
Subject: [PATCH 13/89] fix: do not add uninstantiated constituents to the
 table

---
 src/ccpp_constituent_prop_mod.F90 | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ccpp_constituent_prop_mod.F90 b/src/ccpp_constituent_prop_mod.F90
index 75c89a4..e770434 100644
--- a/src/ccpp_constituent_prop_mod.F90
+++ b/src/ccpp_constituent_prop_mod.F90
@@ -1200,6 +1200,10 @@ CONTAINS
       if (this%okay_to_add(errcode=errcode, errmsg=errmsg,                    &
            warn_func=subname)) then
          error = ''
+         ! A constituent must be instantiated before it can be added
+         if (.not. field_data%is_instantiated(errcode, errmsg)) then
+            return
+         end if
          ! Check to see if standard name is already in the table
          call field_data%standard_name(standard_name, errcode, errmsg)
          cprop => this%find_const(standard_name)
-- 
2.43.0


From 71eef7043878cae0a03725f9922fc591dd3ccaaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:02 +0000
Subject: [PATCH 14/89] fix: report an error when locking an uninitialized
 constituents table

---
 src/ccpp_constituent_prop_mod.F90 | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ccpp_constituent_prop_mod.F90 b/src/ccpp_constituent_prop_mod.F90
index e770434..72efe3b 100644
--- a/src/ccpp_constituent_prop_mod.F90
+++ b/src/ccpp_constituent_prop_mod.F90
@@ -1340,6 +1340,9 @@ CONTAINS
               "WARNING: Model constituents properties already locked, ignoring", &
               subname, errcode=errcode, errmsg=errmsg)
          errcode_local = 1
+      else if (.not. this%hash_table%is_initialized()) then
+         ! The error has been recorded by the const_props_locked call above
+         errcode_local = 1
       else
          ! Make sure everything is really initialized
          call this%reset(clear_hash_table=.false.)
-- 
2.43.0


From 1434c2cc5080a7d6a9ba15d6c8612e9a3cff64ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:02 +0000
Subject: [PATCH 15/89] fix: unlock model constituents on reset

---
 src/ccpp_constituent_prop_mod.F90 | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ccpp_constituent_prop_mod.F90 b/src/ccpp_constituent_prop_mod.F90
index 72efe3b..d9c1626 100644
--- a/src/ccpp_constituent_prop_mod.F90
+++ b/src/ccpp_constituent_prop_mod.F90
@@ -1583,6 +1583,8 @@ CONTAINS
          this%num_layer_vars = 0
          this%num_advected_vars = 0
          this%num_layers = 0
+         this%table_locked = .false.
+         this%data_locked = .false.
          call this%hash_table%clear()
       end if
 
-- 
2.43.0


From 9ebf71ecc6977b0ebe99daaca3a486a31963deb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:02 +0000
Subject: [PATCH 16/89] fix: lock constituent data without optional error
 arguments

---
 src/ccpp_constituent_prop_mod.F90 | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/ccpp_constituent_prop_mod.F90 b/src/ccpp_constituent_prop_mod.F90
index d9c1626..8149332 100644
--- a/src/ccpp_constituent_prop_mod.F90
+++ b/src/ccpp_constituent_prop_mod.F90
@@ -1481,11 +1481,14 @@ CONTAINS
       character(len=*),       optional, intent(out)   :: errmsg
       ! Local variables
       integer                                         :: astat, index, errcode_local
+      integer                                         :: errcode_prop
+      character(len=errmsg_len)                       :: errmsg_prop
       real(kind=kind_phys)                            :: default_value
       real(kind=kind_phys)                            :: minvalue
       character(len=*), parameter :: subname = 'ccp_model_const_data_lock'
 
       errcode_local = 0
+      errcode_prop = 0
       if (this%const_data_locked(errcode=errcode, errmsg=errmsg, warn_func=subname)) then
          call append_errvars(1,                                              &
               "WARNING: Model constituent data already locked, ignoring",    &
@@ -1516,25 +1519,27 @@ CONTAINS
                  subname, errcode=errcode, errmsg=errmsg)
             errcode_local = astat
          end if
-         ! Initialize tendencies to 0
-         this%vars_layer_tend(:,:,:) = 0._kind_phys
          if (errcode_local == 0) then
+            ! Initialize tendencies to 0
+            this%vars_layer_tend(:,:,:) = 0._kind_phys
             this%num_layers = num_layers
             do index = 1, this%hash_table%num_values()
                !Set all constituents to their default values:
                call this%const_metadata(index)%default_value(default_value, &
-                               errcode, errmsg)
+                               errcode_prop, errmsg_prop)
+               if (errcode_prop /= 0) exit
                this%vars_layer(:,:,index) = default_value
 
                ! Also set the minimum allowed value array
-               call this%const_metadata(index)%minimum(minvalue, errcode,   &
-                               errmsg)
+               call this%const_metadata(index)%minimum(minvalue,            &
+                               errcode_prop, errmsg_prop)
+               if (errcode_prop /= 0) exit
                this%vars_minvalue(index) = minvalue
             end do
-         end if
-         if (present(errcode)) then
-            if (errcode /= 0) then
-               errcode_local = 1
+            if (errcode_prop /= 0) then
+               call append_errvars(errcode_prop, errmsg_prop, subname,       &
+                    errcode=errcode, errmsg=errmsg)
+               errcode_local = errcode_prop
             end if
          end if
          if (errcode_local == 0) then
-- 
2.43.0


From 56f565ba873a35c6fed7847a69a9099268bfc566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:59 +0000
Subject: [PATCH 17/89] fix: report an error when comparing with an
 uninstantiated constituent

---
 src/ccpp_constituent_prop_mod.F90 | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/ccpp_constituent_prop_mod.F90 b/src/ccpp_constituent_prop_mod.F90
index 8149332..5463969 100644
--- a/src/ccpp_constituent_prop_mod.F90
+++ b/src/ccpp_constituent_prop_mod.F90
@@ -759,8 +759,12 @@ CONTAINS
       integer,          optional,           intent(out) :: errcode
       character(len=*), optional,           intent(out) :: errmsg
 
-      if (this%is_instantiated(errcode, errmsg) .and.                         &
-           oconst%is_instantiated(errcode, errmsg)) then
+      ! Test <this> only if <oconst> passes to avoid clearing its error status
+      equiv = oconst%is_instantiated(errcode, errmsg)
+      if (equiv) then
+         equiv = this%is_instantiated(errcode, errmsg)
+      end if
+      if (equiv) then
          equiv = (trim(this%var_std_name) == trim(oconst%var_std_name)) .and. &
               (trim(this%var_long_name) == trim(oconst%var_long_name))  .and. &
               (trim(this%vert_dim) == trim(oconst%vert_dim))            .and. &
@@ -772,8 +776,6 @@ CONTAINS
               (this%thermo_active .eqv. oconst%thermo_active)           .and. &
               (this%const_water == oconst%const_water)                  .and. &
               (this%water_species .eqv. oconst%water_species)
-      else
-         equiv = .false.
       end if
 
    end subroutine ccp_is_equivalent
-- 
2.43.0


From 6e8785e82b7eb45c1a83b67345f469a6b8711be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:25 +0000
Subject: [PATCH 18/89] fix: clear all properties when a constituent is
 deallocated

---
 src/ccpp_constituent_prop_mod.F90 | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/ccpp_constituent_prop_mod.F90 b/src/ccpp_constituent_prop_mod.F90
index 5463969..2501443 100644
--- a/src/ccpp_constituent_prop_mod.F90
+++ b/src/ccpp_constituent_prop_mod.F90
@@ -479,13 +479,20 @@ CONTAINS
       if (allocated(this%var_long_name)) then
          deallocate(this%var_long_name)
       end if
+      if (allocated(this%var_units)) then
+         deallocate(this%var_units)
+      end if
       if (allocated(this%vert_dim)) then
          deallocate(this%vert_dim)
       end if
       this%const_ind = int_unassigned
       this%advected = .false.
+      this%thermo_active = .false.
+      this%water_species = .false.
       this%const_type = int_unassigned
       this%const_water = int_unassigned
+      this%min_val = 0.0_kind_phys
+      this%molar_mass_val = kphys_unassigned
       this%const_default_value = kphys_unassigned
 
    end subroutine ccp_deallocate
-- 
2.43.0


From 4897d15741e71b683c22f1598cc7607fa9c9825c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:25 +0000
Subject: [PATCH 19/89] fix: define the vertical dimension of uninstantiated
 constituent pointers

---
 src/ccpp_constituent_prop_mod.F90 | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/ccpp_constituent_prop_mod.F90 b/src/ccpp_constituent_prop_mod.F90
index 2501443..2d6a106 100644
--- a/src/ccpp_constituent_prop_mod.F90
+++ b/src/ccpp_constituent_prop_mod.F90
@@ -2052,9 +2052,7 @@ CONTAINS
       character(len=*), parameter :: subname = 'ccpt_get_vertical_dimension'
 
       if (associated(this%prop)) then
-         if (this%prop%is_instantiated(errcode, errmsg)) then
-            call this%prop%vertical_dimension(vert_dim, errcode, errmsg)
-         end if
+         call this%prop%vertical_dimension(vert_dim, errcode, errmsg)
       else
          vert_dim = ''
          call initialize_errvars(errcode, errmsg)
-- 
2.43.0


From d80f7c994f65703265ff6c7b8b63e841edfe7a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:43 +0000
Subject: [PATCH 20/89] fix: replace changed generated files instead of
 unchanged ones

---
 scripts/file_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scripts/file_utils.py b/scripts/file_utils.py
index 669922b..cce8fb0 100644
--- a/scripts/file_utils.py
+++ b/scripts/file_utils.py
@@ -289,7 +289,8 @@ def move_modified_files(src_dir, dest_dir, overwrite=False, remove_src=False):
                 if overwrite:
                     fmove = True
                 else:
-                    fmove = filecmp.cmp(src_path, dest_path, shallow=False)
+                    fmove = not filecmp.cmp(src_path, dest_path,
+                                            shallow=False)
                 # end if
             else:
                 fmove = True
-- 
2.43.0


From a98b94fcca67bd9b5464a1c65d6f2d911c3b4334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:00 +0000
Subject: [PATCH 21/89] fix: allocate transformed variables without an extent
 argument from the loop limits

---
 scripts/metavar.py       | 2 +-
 scripts/suite_objects.py | 8 ++++++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/scripts/metavar.py b/scripts/metavar.py
index ed62ab6..3c4b884 100755
--- a/scripts/metavar.py
+++ b/scripts/metavar.py
@@ -2046,7 +2046,7 @@ class VarDictionary(OrderedDict):
             else:
                 my_vars = [self.find_variable(standard_name=x,
                                               any_scope=any_scope)
-                           for x in loop_var]
+                           for x in loop_var.required_stdnames]
                 if None not in my_vars:
                     my_var = tuple(my_vars)
                     if self.__run_env.logger is not None:
diff --git a/scripts/suite_objects.py b/scripts/suite_objects.py
index 493758d..8f52ee5 100755
--- a/scripts/suite_objects.py
+++ b/scripts/suite_objects.py
@@ -2412,6 +2412,14 @@ class Group(SuiteObject):
                     dvar = self.call_list.find_variable(standard_name=dpart,
                                                         any_scope=False)
                 if dvar is None:
+                    # An extent may be given by the limits of the loop
+                    lvars = self.call_list.find_loop_subst(dpart,
+                                                           any_scope=False)
+                    if lvars is not None:
+                        lnames = [x.get_prop_value('local_name') for x in lvars]
+                        rdparts.append("{1}-{0}+1".format(*lnames))
+                        continue
+                    # end if
                     emsg = "Dimension variable, '{}', not found{}"
                     lvar = self.find_local_name(dpart, any_scope=True)
                     if lvar is not None:
-- 
2.43.0


From 0349a2b586452ad39a3986420d3a463d0614b2fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:22 +0000
Subject: [PATCH 22/89] fix: remove the generated files when cleaning a capgen
 run

---
 scripts/ccpp_capgen.py | 81 +++++++++++++++++++++++++-----------------
 1 file changed, 48 insertions(+), 33 deletions(-)

diff --git a/scripts/ccpp_capgen.py b/scripts/ccpp_capgen.py
index 9eac0ec..d6cca0b 100755
--- a/scripts/ccpp_capgen.py
+++ b/scripts/ccpp_capgen.py
@@ -14,6 +14,7 @@ import sys
 import os
 import logging
 import re
+import xml.etree.ElementTree as ET
 # CCPP framework imports
 from ccpp_database_obj import CCPPDatabaseObj
 from ccpp_datafile import generate_ccpp_datatable
@@ -52,40 +53,54 @@ _CCPP_FRAMEWORK_DDT_TYPES = ["ccpp_hash_table_t",
                              "ccpp_hashable_char_t"]
 
 ###############################################################################
-def delete_pathnames_from_file(capfile, logger):
-###############################################################################
-    """Remove all the filenames found in <capfile>, then delete <capfile>"""
-    root_path = os.path.dirname(os.path.abspath(capfile))
-    success = True
-    with open(capfile, 'r') as infile:
-        for line in infile.readlines():
-            path = line.strip()
-            # Skip blank lines and lines which appear to start with a comment.
-            if path and (path[0] != '#') and (path[0] != '!'):
-                # Check for an absolute path
-                if not os.path.isabs(path):
-                    # Assume relative pathnames are relative to pathsfile
-                    path = os.path.normpath(os.path.join(root_path, path))
-                # end if
-                logger.info("Clean: Removing {}".format(path))
-                try:
-                    os.remove(path)
-                except OSError as oserr:
-                    success = False
-                    errmsg = 'Unable to remove {}\n{}'
-                    logger.warning(errmsg.format(path, oserr))
-                # end try
-            # end if (else skip blank or comment line)
-        # end for
-    # end with open
-    logger.info("Clean: Removing {}".format(capfile))
+def generated_files_from_datatable(capfile, logger):
+###############################################################################
+    """Return the list of files which the capgen run that wrote the datatable
+    file, <capfile>, generated or None if <capfile> is not a datatable.
+    Framework source files listed in <capfile> are not included."""
     try:
-        os.remove(capfile)
-    except OSError as oserr:
-        success = False
-        errmsg = 'Unable to remove {}\n{}'
-        logger.warning(errmsg.format(capfile, oserr))
+        datatable = ET.parse(capfile).getroot()
+    except (ET.ParseError, UnicodeDecodeError, OSError) as err:
+        logger.error("Unable to read datatable, {}\n{}".format(capfile, err))
+        return None
     # end try
+    if datatable.tag != "ccpp_datatable":
+        logger.error("{} is not a CCPP datatable".format(capfile))
+        return None
+    # end if
+    paths = list()
+    for section in ["utilities", "host_files", "suite_files"]:
+        for entry in datatable.findall("ccpp_files/{}/file".format(section)):
+            path = entry.text.strip() if entry.text else ''
+            # The kinds file is the only generated utility
+            is_generated = ((section != "utilities") or
+                            (os.path.basename(path) == KINDS_FILENAME))
+            if path and is_generated:
+                paths.append(path)
+            # end if
+        # end for
+    # end for
+    return paths
+
+###############################################################################
+def delete_generated_files(capfile, logger):
+###############################################################################
+    """Remove all the generated files listed in the datatable file, <capfile>,
+    then delete <capfile>"""
+    paths = generated_files_from_datatable(capfile, logger)
+    success = paths is not None
+    if success:
+        for path in paths + [capfile]:
+            logger.info("Clean: Removing {}".format(path))
+            try:
+                os.remove(path)
+            except OSError as oserr:
+                success = False
+                errmsg = 'Unable to remove {}\n{}'
+                logger.warning(errmsg.format(path, oserr))
+            # end try
+        # end for
+    # end if
     if success:
         logger.info("ccpp_capgen clean successful, exiting")
     else:
@@ -586,7 +601,7 @@ def clean_capgen(cap_output_file, logger):
     set_log_level(logger, logging.INFO)
     if os.path.exists(cap_output_file):
         logger.info("Cleaning capgen files from {}".format(cap_output_file))
-        delete_pathnames_from_file(cap_output_file, logger)
+        delete_generated_files(cap_output_file, logger)
     else:
         emsg = "Unable to run clean, {} not found"
         logger.error(emsg.format(cap_output_file))
-- 
2.43.0


From 6b0f34ab37ec24a9b37a7413d75c49d4b7966919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:22 +0000
Subject: [PATCH 23/89] fix: prebuild clean removes exactly the files prebuild
 writes

---
 scripts/ccpp_prebuild.py | 21 ++++++++++++++-------
 scripts/mkstatic.py      |  3 +++
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/scripts/ccpp_prebuild.py b/scripts/ccpp_prebuild.py
index b8829b6..f70d4c7 100755
--- a/scripts/ccpp_prebuild.py
+++ b/scripts/ccpp_prebuild.py
@@ -5,6 +5,7 @@ import argparse
 import collections
 import copy
 import filecmp
+import glob
 import importlib
 import itertools
 import logging
@@ -13,7 +14,7 @@ import re
 import sys
 
 # CCPP framework imports
-from common import encode_container, decode_container, decode_container_as_dict, execute
+from common import encode_container, decode_container, decode_container_as_dict
 from common import CCPP_STAGES, CCPP_INTERNAL_VARIABLES, CCPP_STATIC_API_MODULE, CCPP_INTERNAL_VARIABLE_DEFINITON_FILE
 from common import STANDARD_VARIABLE_TYPES, STANDARD_INTEGER_TYPE, CCPP_TYPE
 from common import SUITE_DEFINITION_FILENAME_PATTERN
@@ -24,7 +25,7 @@ from mkcap import CapsMakefile, CapsCMakefile, CapsSourcefile, \
                   TypedefsMakefile, TypedefsCMakefile, TypedefsSourcefile
 from mkdoc import metadata_to_html, metadata_to_latex
 from mkstatic import API, Suite, Group
-from mkstatic import CCPP_SUITE_VARIABLES
+from mkstatic import CCPP_SUITE_VARIABLES, CCPP_CAP_IDENTIFIER
 
 ###############################################################################
 # Set up the command line argument parser and other global variables          #
@@ -140,7 +141,7 @@ def clean_files(config, namespace):
         static_api_file = '{api}.F90'.format(api=CCPP_STATIC_API_MODULE+'_'+namespace)
     else:
         static_api_file = '{api}.F90'.format(api=CCPP_STATIC_API_MODULE)
-    # Create list of files to remove, use wildcards where necessary
+    # Create list of files to remove
     files_to_remove = [
         config['typedefs_makefile'],
         config['typedefs_cmakefile'],
@@ -153,13 +154,19 @@ def clean_files(config, namespace):
         config['caps_sourcefile'],
         config['html_vartable_file'],
         config['latex_vartable_file'],
-        os.path.join(config['caps_dir'], 'ccpp_*_cap.F90'),
         os.path.join(config['static_api_dir'], static_api_file),
         config['static_api_sourcefile'],
+        config['static_api_cmakefile'],
         ]
-    # Not very pythonic, but the easiest way w/o importing another Python module
-    cmd = 'rm -vf {0}'.format(' '.join(files_to_remove))
-    execute(cmd)
+    # Add the suite and group caps, but only files that were written by this script
+    for capfile in glob.glob(os.path.join(glob.escape(config['caps_dir']), 'ccpp_*_cap.F90')):
+        with open(capfile, 'r', errors='replace') as infile:
+            if CCPP_CAP_IDENTIFIER in infile.read():
+                files_to_remove.append(capfile)
+    for filename in files_to_remove:
+        if os.path.isfile(filename):
+            os.remove(filename)
+            logging.info('Removed {0}'.format(filename))
     return success
 
 def get_all_suites(suites_dir):
diff --git a/scripts/mkstatic.py b/scripts/mkstatic.py
index 618d3a8..5c7464c 100755
--- a/scripts/mkstatic.py
+++ b/scripts/mkstatic.py
@@ -30,6 +30,9 @@ from mkcap import Var
 # Cap names of 64 characters or longer can cause issues with some compilers.
 SUITE_NAME_MAX_CHARS = 37
 
+# Comment identifying the suite and group caps written by this module (see headers below)
+CCPP_CAP_IDENTIFIER = '!! @brief Auto-generated cap module for the CCPP'
+
 # Maximum number of dimensions of an array allowed by the Fortran 2008 standard
 FORTRAN_ARRAY_MAX_DIMS = 15
 
-- 
2.43.0


From f0372e4f00e1a32a62fc30a0280a2bb4cd1b5ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:25 +0000
Subject: [PATCH 24/89] fix: make generated files independent of set and
 directory listing order

---
 scripts/ccpp_datafile.py | 4 ++--
 scripts/ccpp_prebuild.py | 2 +-
 scripts/ddt_library.py   | 2 +-
 scripts/file_utils.py    | 4 ++--
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/scripts/ccpp_datafile.py b/scripts/ccpp_datafile.py
index 6bb5e53..5f72105 100755
--- a/scripts/ccpp_datafile.py
+++ b/scripts/ccpp_datafile.py
@@ -1044,11 +1044,11 @@ def _add_dependencies(parent, scheme_depends, host_depends):
     '<ccpp_datafile>\\n  <dependencies>\\n    <dependency>\\n      file3\\n    </dependency>\\n    <dependency>\\n      file4\\n    </dependency>\\n    <dependency>\\n      file1\\n    </dependency>\\n    <dependency>\\n      file2\\n    </dependency>\\n  </dependencies>\\n</ccpp_datafile>\\n'
     """
     file_entry = ET.SubElement(parent, "dependencies")
-    for hfile in host_depends:
+    for hfile in sorted(host_depends):
         entry = ET.SubElement(file_entry, "dependency")
         entry.text = hfile
     # end for
-    for sfile in scheme_depends:
+    for sfile in sorted(scheme_depends):
         entry = ET.SubElement(file_entry, "dependency")
         entry.text = sfile
     # end for
diff --git a/scripts/ccpp_prebuild.py b/scripts/ccpp_prebuild.py
index f70d4c7..bc98a7f 100755
--- a/scripts/ccpp_prebuild.py
+++ b/scripts/ccpp_prebuild.py
@@ -174,7 +174,7 @@ def get_all_suites(suites_dir):
     success = False
     logging.info("No suites were given, compiling a list of all suites")
     sdfs = []
-    for f in os.listdir(suites_dir):
+    for f in sorted(os.listdir(suites_dir)):
         match = SUITE_DEFINITION_FILENAME_PATTERN.match(f)
         if match:
             logging.info('Adding suite definition file {}'.format(f))
diff --git a/scripts/ddt_library.py b/scripts/ddt_library.py
index 5d6e807..bf7ac7b 100644
--- a/scripts/ddt_library.py
+++ b/scripts/ddt_library.py
@@ -319,7 +319,7 @@ class DDTLibrary(dict):
         <variable_list>"""
         pad = max(pad, self.__max_mod_name_len)
         ddt_mods = self.ddt_modules(variable_list)
-        for ddt_mod in ddt_mods:
+        for ddt_mod in sorted(ddt_mods):
             dmod = ddt_mod[0]
             dtype = ddt_mod[1]
             slen = ' '*(pad - len(dmod))
diff --git a/scripts/file_utils.py b/scripts/file_utils.py
index cce8fb0..dee383c 100644
--- a/scripts/file_utils.py
+++ b/scripts/file_utils.py
@@ -59,7 +59,7 @@ def add_unique_files(filepath, pdesc, master_list, logger):
     Return a list of errors found
     Wildcards in <filepath> are expanded"""
     errors = list()
-    for file in glob.glob(filepath):
+    for file in sorted(glob.glob(filepath)):
         errs = check_for_existing_file(file, pdesc)
         if errs:
             errors.extend(errs)
@@ -149,7 +149,7 @@ def _create_file_list_int(files, suffices, file_type, logger,
             errs = add_unique_files(filename, pdesc, master_list, logger)
             errors.extend(errs)
         elif suff == 'txt':
-            tfiles = glob.glob(filename)
+            tfiles = sorted(glob.glob(filename))
             if tfiles:
                 for file in tfiles:
                     if file in txt_files:
-- 
2.43.0


From a33e8c7d11a075f0e49884a6d28e33c02223a200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:25 +0000
Subject: [PATCH 25/89] fix: keep local names of a dictionary unique

---
 scripts/ccpp_suite.py    |  2 +-
 scripts/metavar.py       | 12 +++++++-----
 scripts/suite_objects.py |  3 ++-
 3 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/scripts/ccpp_suite.py b/scripts/ccpp_suite.py
index 09f32f5..3edfa6c 100644
--- a/scripts/ccpp_suite.py
+++ b/scripts/ccpp_suite.py
@@ -312,7 +312,7 @@ character(len=16) :: {css_var_name} = '{state}'
                     var.source = ParseSource(API_SOURCE_NAME,
                                              _API_SUITE_VAR_NAME,
                                              var.context)
-                    self.add_variable(var, self.__run_env)
+                    self.add_variable(var, self.__run_env, gen_unique=True)
                     # Remove the variable from the group
                     group.remove_variable(standard_name)
                     # Make sure the variable's dimensions are available
diff --git a/scripts/metavar.py b/scripts/metavar.py
index 3c4b884..e3bf665 100755
--- a/scripts/metavar.py
+++ b/scripts/metavar.py
@@ -1693,10 +1693,10 @@ class VarDictionary(OrderedDict):
         # end if
         lname = newvar.get_prop_value('local_name')
         lvar = self.find_local_name(lname)
-        if lvar is not None:
+        if (lvar is not None) and (standard_name not in self):
             if gen_unique:
-                new_lname = self.new_internal_variable_name(prefix=lname)
-                newvar = newvar.clone(new_lname)
+                lname = self.new_internal_variable_name(prefix=lname)
+                newvar = newvar.clone(lname)
             elif not exists_ok:
                 errstr = 'Invalid local_name: {} already registered{}'
                 cstr = context_string(lvar.source.context, with_comma=True)
@@ -1728,6 +1728,9 @@ class VarDictionary(OrderedDict):
         """
         if standard_name in self:
             del self[standard_name]
+            self.__local_names = {lname : sname for lname, sname
+                                  in self.__local_names.items()
+                                  if sname != standard_name}
         # end if
 
     def add_variable_dimensions(self, var, ignore_sources, to_dict=None,
@@ -2099,7 +2102,6 @@ class VarDictionary(OrderedDict):
         else:
             var_prefix = '{}'.format(prefix)
         # end if
-        varlist = [x for x in self.__local_names.keys() if var_prefix in x]
         newvar = None
         while newvar is None:
             if index == 0:
@@ -2111,7 +2113,7 @@ class VarDictionary(OrderedDict):
             if len(newvar) > max_len:
                 var_prefix = var_prefix[:-1]
                 newvar = None
-            elif newvar in varlist:
+            elif newvar.lower() in self.__local_names:
                 newvar = None
             # end if
         # end while
diff --git a/scripts/suite_objects.py b/scripts/suite_objects.py
index 8f52ee5..c0a8e3a 100755
--- a/scripts/suite_objects.py
+++ b/scripts/suite_objects.py
@@ -2305,7 +2305,8 @@ class Group(SuiteObject):
                         ParseSource(_API_SOURCE_NAME,
                                     _API_LOCAL_VAR_NAME, newvar.context),
                         self.run_env)
-        self.add_variable(local_var, self.run_env, exists_ok=True)
+        self.add_variable(local_var, self.run_env, exists_ok=True,
+                          gen_unique=True)
         # Finally, make sure all dimensions are accounted for
         emsg = self.add_variable_dimensions(local_var, _API_LOCAL_VAR_TYPES,
                                             adjust_intent=True,
-- 
2.43.0


From f072f5f8492a24aef1362b2a5251630a16f9cf48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:20 +0000
Subject: [PATCH 26/89] fix: break long Fortran statements only where they can
 be continued

---
 scripts/fortran_tools/fortran_write.py | 270 +++++++++++++------------
 1 file changed, 140 insertions(+), 130 deletions(-)

diff --git a/scripts/fortran_tools/fortran_write.py b/scripts/fortran_tools/fortran_write.py
index 5b186c1..69d2859 100644
--- a/scripts/fortran_tools/fortran_write.py
+++ b/scripts/fortran_tools/fortran_write.py
@@ -82,8 +82,9 @@ end module {module}'''
         else:
             best = max(possible)
         # End if
-        if (best > self.__line_max) and (last < self.__line_max):
-            best = self.find_best_break(choices, last=self.__line_max)
+        if (best > self.__line_max) and (last < self.__line_max - 1):
+            # Leave room for a continuation character
+            best = self.find_best_break(choices, last=self.__line_max - 1)
         # End if
         return best
 
@@ -101,24 +102,8 @@ end module {module}'''
         >>> FortranWriter._in_quote("'hi"" mom'")
         False
         """
-        in_single_char = False
-        in_double_char = False
-        for char in test_str:
-            if in_single_char:
-                if char == "'":
-                    in_single_char = False
-                # end if
-            elif in_double_char:
-                if char == '"':
-                    in_double_char = False
-                # end if
-            elif char == "'":
-                in_single_char = True
-            elif char == '"':
-                in_double_char = True
-            # end if
-        # end for
-        return in_single_char or in_double_char
+        context = FortranWriter._scan_line(test_str, 0, '')[3]
+        return bool(context and context[-1])
 
     ###########################################################################
 
@@ -136,120 +121,145 @@ end module {module}'''
                 self.write(stmt, indent_level, continue_line)
             # End for
         else:
-            istr = self.indent(indent_level, continue_line)
-            ostmt = statement.strip()
-            is_comment_stmt = ostmt and (ostmt[0] == '!')
-            in_comment = ""
-            if ostmt and (ostmt[0] != '&'):
-                # Skip indent for continue that is in the middle of a
-                #    token or a quoted region
-                outstr = istr + ostmt
-            else:
-                outstr = ostmt
-            # end if
-            line_len = len(outstr)
-            if line_len > self.__line_fill:
-                # Collect pretty break points
-                spaces = list()
-                commas = list()
-                sptr = len(istr)
-                in_single_char = False
-                in_double_char = False
-                while sptr < line_len:
-                    if in_single_char:
-                        if outstr[sptr] == "'":
-                            in_single_char = False
-                        # End if (no else, just copy stuff in string)
-                    elif in_double_char:
-                        if outstr[sptr] == '"':
-                            in_double_char = False
-                        # End if (no else, just copy stuff in string)
-                    elif outstr[sptr] == "'":
-                        in_single_char = True
-                    elif outstr[sptr] == '"':
-                        in_double_char = True
-                    elif outstr[sptr] == '!':
-                        # Comment in non-character context
-                        spaces.append(sptr-1)
-                        in_comment = "! " # No continue for comment
-                        if ((not is_comment_stmt) and
-                            (sptr >= self.__max_comment_start)):
-                            # suck in rest of line
-                            sptr = line_len - 1
-                        # end if
-                    elif outstr[sptr] == ' ':
-                        # Non-quote spaces are where we can break
-                        spaces.append(sptr)
-                    elif outstr[sptr] == ',':
-                        # Non-quote commas are where we can break
-                        commas.append(sptr)
-                    elif outstr[sptr:sptr+2] == '//':
-                        # Non-quote commas are where we can break
-                        commas.append(sptr + 1)
-                    # End if (no else, other characters will be ignored)
-                    sptr = sptr + 1
-                # End while
-                # Before looking for best space, reject any that are on a
-                #    comment line but before any significant characters
-                if outstr.lstrip().startswith('!'):
-                    first_space = outstr.index('!') + 1
-                    while ((outstr[first_space] == '!' or
-                            outstr[first_space] == ' ') and
-                           (first_space < line_len)):
-                        first_space += 1
-                    # end while
-                    if min(spaces) < first_space:
-                        spaces = [x for x in spaces if x >= first_space]
-                    # end if
-                best = self.find_best_break(spaces)
-                if best >= self.__line_fill:
-                    best = min(best, self.find_best_break(commas))
-                # End if
-                line_continue = False
-                if best >= self.__line_max:
-                    # This is probably a bad situation so we have to break
-                    #   in an ugly spot
-                    best = self.__line_max - 1
-                    if len(outstr) > best:
-                        line_continue = '&'
-                    # end if
-                # end if
-                if len(outstr) > best:
-                    if self._in_quote(outstr[0:best+1]):
-                        line_continue = '&'
-                    else:
-                        # If next line is just comment, do not use continue
-                        line_continue = outstr[best+1:].lstrip()[0] != '!'
-                    # end if
-                elif not line_continue:
-                    line_continue = len(outstr) > best
-                # End if
-                if in_comment or is_comment_stmt:
-                    line_continue = False
-                # end if
-                if line_continue:
-                    fill = "{}&".format((self.__line_fill - best)*' ')
-                else:
-                    fill = ""
-                # End if
-                outline = f"{outstr[0:best+1]}{fill}".rstrip()
-                self.__file.write(f"{outline}\n")
-                if best <= 0:
-                    imsg = "Internal ERROR: Unable to break line"
-                    raise ValueError(f"{imsg}, '{statement}'")
-                # end if
-                statement = in_comment + outstr[best+1:]
-                if isinstance(line_continue, str) and statement:
-                    statement = line_continue + statement
-                # end if
-                self.write(statement, indent_level, continue_line=line_continue)
-            else:
-                self.__file.write("{}\n".format(outstr))
-            # End if
+            quote = ''
+            while statement is not None:
+                statement, quote = self.__write_line(statement, indent_level,
+                                                     continue_line, quote)
+                continue_line = statement and (statement[0] != '!')
+            # end while
         # End if
 
     ###########################################################################
 
+    @staticmethod
+    def _scan_line(line, start, quote):
+        """Scan the text in <line>, beginning at index, <start>.
+        <quote> is the delimiter of the character context <start> is in (or '')
+        Return the indices of the spaces and of the commas (or other
+        separators) after which <line> can be broken, the index of the
+        beginning of the comment on <line> (the length of <line> if there is
+        none), and a list with the character context following each
+        character.
+        >>> FortranWriter._scan_line("a ' b', c", 0, '')
+        ([1, 7], [6], 9, ['', '', "'", "'", "'", '', '', '', ''])
+        >>> FortranWriter._scan_line("b', c ! it's", 0, "'")[0:3]
+        ([3, 5, 5, 7], [2], 6)
+        """
+        spaces = list()
+        commas = list()
+        context = ['']*start
+        comment = len(line)
+        for ind in range(start, len(line)):
+            char = line[ind]
+            if quote:
+                if char == quote:
+                    quote = ''
+                # End if (no else, just copy stuff in string)
+            elif (char in ('"', "'")) and (ind < comment):
+                quote = char
+            elif (char == '!') and (ind < comment):
+                # Comment in non-character context
+                comment = ind
+                spaces.append(ind - 1)
+            elif char == ' ':
+                # Non-quote spaces are where we can break
+                spaces.append(ind)
+            elif char == ',':
+                # Non-quote commas are where we can break
+                commas.append(ind)
+            elif line[ind:ind+2] == '//':
+                # We can also break after a concatenation operator
+                commas.append(ind + 1)
+            # End if (no else, other characters will be ignored)
+            context.append(quote)
+        # end for
+        return spaces, commas, comment, context
+
+    ###########################################################################
+
+    def __write_line(self, statement, indent_level, continue_line, quote):
+        """Write as much of <statement> as fits on a line.
+        <quote> is the delimiter of the character context at the beginning of
+        <statement> (or '').
+        Return the remaining part of <statement> (None if there is none) and
+        the character context at its beginning."""
+        istr = self.indent(indent_level, continue_line)
+        ostmt = statement if quote else statement.strip()
+        is_comment_stmt = ostmt.startswith('!') and (not quote)
+        if ostmt and (ostmt[0] != '&'):
+            # Skip indent for continue that is in the middle of a
+            #    token or a quoted region
+            outstr = istr + ostmt
+            start = len(istr)
+        else:
+            outstr = ostmt
+            start = 1
+        # end if
+        line_len = len(outstr)
+        if line_len <= self.__line_fill:
+            self.__file.write("{}\n".format(outstr))
+            return None, ''
+        # end if
+        # Collect pretty break points
+        spaces, commas, comment, context = self._scan_line(outstr, start, quote)
+        if (not is_comment_stmt) and (comment >= self.__max_comment_start):
+            # Move the whole comment to the next line
+            spaces = [x for x in spaces if x < comment]
+        # end if
+        # Before looking for best space, reject any that are before
+        #    any significant characters
+        first = line_len - len(outstr[start:].lstrip('! ' if is_comment_stmt
+                                                     else ' '))
+        spaces = [x for x in spaces if x >= first]
+        best = self.find_best_break(spaces)
+        if best >= self.__line_fill:
+            best = min(best, self.find_best_break(commas))
+        # End if
+        if best >= self.__line_max:
+            if (line_len <= self.__line_max) and (not is_comment_stmt):
+                self.__file.write("{}\n".format(outstr))
+                return '', ''
+            # end if
+            # This is probably a bad situation so we have to break
+            #   in an ugly spot
+            best = self.__line_max - 1
+            if best < comment:
+                # Leave room for the continuation character
+                best = best - 1
+            # end if
+            # The continued text has to follow the continuation character
+            line_continue = '&'
+        else:
+            line_continue = ''
+        # end if
+        if best <= 0:
+            imsg = "Internal ERROR: Unable to break line"
+            raise ValueError(f"{imsg}, '{statement}'")
+        # end if
+        fill = ""
+        remainder = outstr[best+1:]
+        if best >= comment:
+            # The rest of this statement is still a comment
+            remainder = "! " + remainder
+            quote = ''
+        elif not remainder:
+            remainder = None
+            quote = ''
+        elif remainder.lstrip().startswith('!') and (not context[best]):
+            # If next line is just comment, do not use continue
+            remainder = remainder.lstrip()
+            quote = ''
+        else:
+            fill = "{}&".format((self.__line_fill - best)*' ')
+            remainder = line_continue + remainder
+            quote = context[best]
+        # end if
+        outline = f"{outstr[0:best+1]}{fill}".rstrip()
+        self.__file.write(f"{outline}\n")
+        return remainder, quote
+
+    ###########################################################################
+
     def __init__(self, filename, mode, file_description, module_name,
                  indent=None, continue_indent=None,
                  line_fill=None, line_max=None):
-- 
2.43.0


From c15fb5be0ca03ec90ab419a40ca23968db7ee499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:21 +0000
Subject: [PATCH 27/89] fix: find all variables and honour negative indents of
 code blocks

---
 scripts/code_block.py | 31 ++++++++-----------------------
 1 file changed, 8 insertions(+), 23 deletions(-)

diff --git a/scripts/code_block.py b/scripts/code_block.py
index ccd3f20..fd37a84 100644
--- a/scripts/code_block.py
+++ b/scripts/code_block.py
@@ -5,7 +5,7 @@
 to a file."""
 
 # Python library imports
-import re
+from string import Formatter
 # CCPP framework imports
 from parse_tools   import ParseContext, ParseSource, context_string
 from parse_tools   import ParseInternalError
@@ -41,8 +41,6 @@ class CodeBlock(object):
     >>> os.remove(outfile_name)
     """
 
-    __var_re = re.compile(r"[{][ ]*([A-Za-z][A-Za-z0-9_]*)[ ]*[}]")
-
     __fmt_msg = ('Each element of <code_list> must contain exactly two '
                  'items, a code string and a relative indent')
 
@@ -66,25 +64,12 @@ class CodeBlock(object):
             if not isinstance(line[1], int):
                 raise ParseInternalError(CodeBlock.__fmt_msg.format(code_list))
             # end if
-            beg = 0
-            end = len(stmt)
-            while beg < end:
-                # Ignore double curly braces
-                open_double_curly = stmt.find('{{', beg)
-                close_double_curly = stmt.find('}}',
-                                               max(open_double_curly, beg))
-                if 0 <= open_double_curly < close_double_curly:
-                    beg = close_double_curly + 2
-                else:
-                    match = CodeBlock.__var_re.search(stmt[beg:])
-                    if match:
-                        self.__write_vars.append(match.group(1))
-                        beg = stmt.index('}', beg) + 1
-                    else:
-                        beg = end + 1
-                    # end if
+            # Find the variables, ignoring double curly braces
+            for _, var, _, _ in Formatter().parse(stmt):
+                if var and (var not in self.__write_vars):
+                    self.__write_vars.append(var)
                 # end if
-            # end while
+            # end for
         # end for
 
     def write(self, outfile, indent_level, var_dict):
@@ -96,7 +81,7 @@ class CodeBlock(object):
 
         for line in self.__code_block:
             stmt = line[0]
-            if indent_level >= 0:
+            if line[1] >= 0:
                 indent = indent_level + line[1]
             else:
                 indent = 0
@@ -106,7 +91,7 @@ class CodeBlock(object):
             sep = ''
             for var in self.__write_vars:
                 if var not in var_dict:
-                    errmsg += "'{}' missing from <var_dict>".format(sep, var)
+                    errmsg += "{}'{}' missing from <var_dict>".format(sep, var)
                     sep = '\n'
                 # end if
             # end for
-- 
2.43.0


From c948ecc15299e2e58b3c3eaa18f1f5f80a4f0473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:31 +0000
Subject: [PATCH 28/89] fix: transform suite variables on the elements a run
 phase works on

---
 scripts/suite_objects.py | 48 +++++++++++++++++++++++++++++++++-------
 1 file changed, 40 insertions(+), 8 deletions(-)

diff --git a/scripts/suite_objects.py b/scripts/suite_objects.py
index c0a8e3a..b5c7885 100755
--- a/scripts/suite_objects.py
+++ b/scripts/suite_objects.py
@@ -107,7 +107,8 @@ class CallList(VarDictionary):
         super().add_variable(newvar, run_env, exists_ok=exists_ok,
                              gen_unique=gen_unique, adjust_intent=adjust_intent)
 
-    def call_string(self, cldicts=None, is_func_call=False, subname=None, sub_lnames=None):
+    def call_string(self, cldicts=None, is_func_call=False, subname=None, sub_lnames=None,
+                    local_copies=None):
         """Return a dummy argument string for this call list.
         <cldict> may be a list of VarDictionary objects to search for
         local_names (default is to use self).
@@ -116,6 +117,9 @@ class CallList(VarDictionary):
         list.
         <sub_lnames> may be a dictionary of local_name substitutions
         with the standard names of the substituted variables as keys.
+        <local_copies> may be a collection of the standard names of the
+        variables which are passed via a local copy (i.e., a variable which
+        only holds the elements the called routine operates on).
         """
         arg_str = ""
         arg_sep = ""
@@ -171,6 +175,9 @@ class CallList(VarDictionary):
                     run_phase = self.routine.run_phase()
                     # We only need dimensions for suite variables in run phase
                     need_dims = SuiteObject.is_suite_variable(dvar) and run_phase
+                    if local_copies and (stdname in local_copies):
+                        need_dims = False
+                    # end if
                     vdims = var.call_dimstring(var_dicts=use_dicts,
                                                explicit_dims=need_dims,
                                                loop_subst=run_phase)
@@ -1609,19 +1616,41 @@ class Scheme(SuiteObject):
                 # end if
                 outfile.write('',indent)
 
-    def group_lname(self, stdname, cldicts):
-        """Return the local name of the variable with standard name, <stdname>,
-        in this Scheme's group."""
+    def group_var(self, stdname, cldicts):
+        """Return the variable with standard name, <stdname>, in this
+        Scheme's group."""
         for cldict in cldicts:
             dvar = cldict.find_variable(standard_name=stdname, any_scope=False)
             if dvar is not None:
-                return dvar.get_prop_value('local_name')
+                return dvar
             # end if
         # end for
         emsg = "{}: '{}' not found in {}"
         raise CCPPError(emsg.format(self.subroutine_name, stdname,
                                     [x.name for x in cldicts]))
 
+    def group_lname(self, stdname, cldicts):
+        """Return the local name of the variable with standard name, <stdname>,
+        in this Scheme's group."""
+        return self.group_var(stdname, cldicts).get_prop_value('local_name')
+
+    def transform_indices(self, stdname, indices, cldicts):
+        """Return <indices> modified, if necessary, to select the elements of
+        the variable with standard name, <stdname>, this Scheme operates on.
+        In the run phase, a Scheme only operates on a subset of the horizontal
+        dimension but a suite variable always has the full dimension."""
+        dvar = self.group_var(stdname, cldicts)
+        if self.run_phase() and SuiteObject.is_suite_variable(dvar):
+            _, hdim = find_horizontal_dimension(dvar.get_dimensions())
+            if hdim >= 0:
+                indices = list(indices)
+                indices[hdim] = ':'.join([self.group_lname(x, cldicts) for x in
+                                          ('horizontal_loop_begin',
+                                           'horizontal_loop_end')])
+            # end if
+        # end if
+        return indices
+
     def pointer_target(self, var, cldicts):
         """Return the name of the variable the local pointer for <var> should
         be associated with (i.e., the transformed variable if there is one)"""
@@ -1788,7 +1817,8 @@ class Scheme(SuiteObject):
         my_args = self.call_list.call_string(cldicts=cldicts,
                                              is_func_call=True,
                                              subname=self.subroutine_name,
-                                             sub_lnames=sub_lnames)
+                                             sub_lnames=sub_lnames,
+                                             local_copies=self.__transform_lnames)
         #
         outfile.write('', indent)
         outfile.write('if ({} == 0) then'.format(errcode), indent)
@@ -1823,7 +1853,8 @@ class Scheme(SuiteObject):
             # from <var> and replace its local_name with the local_name from the
             # Group's call_list.
             lvar_lname = self.group_lname(var_sname, cldicts)
-            self.write_var_transform(lvar_lname, dummy, var_sname, rindices, lindices, compat_obj, cldicts, outfile, indent+1, False)
+            sindices = self.transform_indices(var_sname, rindices, cldicts)
+            self.write_var_transform(lvar_lname, dummy, var_sname, sindices, lindices, compat_obj, cldicts, outfile, indent+1, False)
         # end for
         outfile.write('',indent+1)
         #
@@ -1858,7 +1889,8 @@ class Scheme(SuiteObject):
             # from <var> and replace its local_name with the local_name from the
             # Group's call_list.
             lvar_lname = self.group_lname(var_sname, cldicts)
-            self.write_var_transform(lvar_lname, dummy, var_sname, rindices, lindices, compat_obj, cldicts, outfile, indent+1, True)
+            sindices = self.transform_indices(var_sname, rindices, cldicts)
+            self.write_var_transform(lvar_lname, dummy, var_sname, sindices, lindices, compat_obj, cldicts, outfile, indent+1, True)
         # end for
         outfile.write('', indent)
         outfile.write('end if', indent)
-- 
2.43.0


From f5f95a5eb65edd6dc2b19178d4000f51ee59657e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:31 +0000
Subject: [PATCH 29/89] fix: keep suite variables of a timestep until the final
 phase if used there

---
 scripts/ccpp_suite.py    | 13 ++++++++++---
 scripts/metavar.py       |  4 ++++
 scripts/suite_objects.py |  4 ++++
 3 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/scripts/ccpp_suite.py b/scripts/ccpp_suite.py
index 3edfa6c..cfca274 100644
--- a/scripts/ccpp_suite.py
+++ b/scripts/ccpp_suite.py
@@ -316,10 +316,17 @@ character(len=16) :: {css_var_name} = '{state}'
                     # Remove the variable from the group
                     group.remove_variable(standard_name)
                     # Make sure the variable's dimensions are available
-                    # at the init stage (for allocation)
+                    # where it may be allocated (at the init stage or at the
+                    # beginning of the timestep)
                     for group in self.groups:
-                        # only add dimension variables to init phase calling list
-                        if group.name == self.__suite_init_group.name:
+                        # only add dimension variables to calling lists of
+                        # the phases which may allocate this variable
+                        alloc = (group.name == self.__suite_init_group.name)
+                        if var.get_prop_value('persistence') == 'timestep':
+                            alloc |= (group.name ==
+                                      self.__timestep_init_group.name)
+                        # end if
+                        if alloc:
                             dims = var.get_dimensions()
                             # replace horizontal loop dimension if necessary
                             for idx, dim in enumerate(dims):
diff --git a/scripts/metavar.py b/scripts/metavar.py
index e3bf665..d4e5059 100755
--- a/scripts/metavar.py
+++ b/scripts/metavar.py
@@ -406,6 +406,10 @@ class Var:
         # end if
         return compat
 
+    def adjust_persistence(self, persistence):
+        """Set the persistence of this (framework managed) Var"""
+        self._prop_dict['persistence'] = persistence
+
     def adjust_intent(self, src_var):
         """Add an intent to this Var or adjust its existing intent.
         Note: An existing intent can only be adjusted to 'inout'
diff --git a/scripts/suite_objects.py b/scripts/suite_objects.py
index b5c7885..6ba9c1d 100755
--- a/scripts/suite_objects.py
+++ b/scripts/suite_objects.py
@@ -891,6 +891,10 @@ class SuiteObject(VarDictionary):
             # Therefore, we have to use the declaration dimensions in the call.
             found_var = True
             new_vdims = dict_var.get_dimensions()
+            if not (self.run_phase() or self.timestep_phase()):
+                # This variable is needed outside of a timestep
+                dict_var.adjust_persistence('run')
+            # end if
         else:
             # Check dimensions
             dict_dims = dict_var.get_dimensions()
-- 
2.43.0


From baaca98322489e6dfecccc859b576615186654af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:31 +0000
Subject: [PATCH 30/89] fix: make the local names of suite and group caps
 unique

---
 scripts/ccpp_suite.py    | 27 +++++++++++++++++++++++++++
 scripts/metavar.py       | 20 ++++++++++++++++++--
 scripts/suite_objects.py | 32 ++++++++++++++++++++++++++++++--
 3 files changed, 75 insertions(+), 4 deletions(-)

diff --git a/scripts/ccpp_suite.py b/scripts/ccpp_suite.py
index cfca274..5ecd557 100644
--- a/scripts/ccpp_suite.py
+++ b/scripts/ccpp_suite.py
@@ -45,6 +45,10 @@ _API_DUMMY_RUN_ENV = CCPPFrameworkEnv(_API_LOGGING,
                                              'scheme_files':'',
                                              'suites':''})
 
+# Fortran intrinsics used in suite caps
+_CAP_INTRINSICS = ('allocated', 'associated', 'null', 'present', 'real', 'size',
+                   'trim', 'ubound', 'lbound')
+
 # Required variables for inclusion in auto-generated schemes
 CCPP_REQUIRED_VARS = [ccpp_standard_var('ccpp_error_code',
                                         _API_SCHEME_VAR_NAME,
@@ -528,6 +532,27 @@ character(len=16) :: {css_var_name} = '{state}'
         """Return the constituent dictionary for this suite"""
         return self.parent
 
+    def resolve_local_names(self, const_mod):
+        """Make sure that the suite variables, the groups' variables, and the
+        other names used in the suite cap do not hide one another."""
+        reserved = {self.module, Suite.__state_machine_var_name, KINDS_MODULE,
+                    const_mod}
+        reserved.update([kind.split('=')[0] for kind
+                         in self.__run_env.kind_types()])
+        reserved.update([group.name for group in self.groups])
+        for ddt in self.__ddt_library.values():
+            reserved.update([ddt.title, ddt.module])
+        # end for
+        reserved.update(_CAP_INTRINSICS)
+        reserved = {x.lower() for x in reserved if x}
+        used = set(reserved)
+        for group in self.groups:
+            used.update(group.resolve_local_names(reserved))
+        # end for
+        for standard_name in list(self.keys()):
+            self.make_local_name_unique(standard_name, used)
+        # end for
+
     def write(self, output_dir, run_env):
         """Create caps for all groups in the suite and for the entire suite
         (calling the group caps one after another)"""
@@ -538,6 +563,8 @@ character(len=16) :: {css_var_name} = '{state}'
         # end if
         # Retrieve the name of the constituent module for Group use statements
         const_mod = self.parent.constituent_module_name()
+        # Make sure the names used in this file do not clash
+        self.resolve_local_names(const_mod)
         # Init
         output_file_name = os.path.join(output_dir, filename)
         with FortranWriter(output_file_name, 'w',
diff --git a/scripts/metavar.py b/scripts/metavar.py
index d4e5059..519f2e7 100755
--- a/scripts/metavar.py
+++ b/scripts/metavar.py
@@ -2094,11 +2094,26 @@ class VarDictionary(OrderedDict):
         """
         return var.call_string(self, loop_vars=loop_vars)
 
-    def new_internal_variable_name(self, prefix=None, max_len=63):
+    def make_local_name_unique(self, standard_name, used):
+        """Replace the variable with standard name, <standard_name>, by a clone
+        with a new local name if its local name is in <used> (a set of lower
+        case names). The new local name is not in <used>."""
+        lname = self[standard_name].get_prop_value('local_name')
+        if lname.lower() in used:
+            new_lname = self.new_internal_variable_name(prefix=lname, used=used)
+            self[standard_name] = self[standard_name].clone(new_lname)
+            self.__local_names = {name : sname for name, sname
+                                  in self.__local_names.items()
+                                  if sname != standard_name}
+            self.__local_names[new_lname.lower()] = standard_name
+        # end if
+
+    def new_internal_variable_name(self, prefix=None, max_len=63, used=()):
         """Find a new local variable name for this dictionary.
         The new name begins with <prefix>_<self.name> or with <self.name>
         (where <self.name> is this VarDictionary's name) if <prefix> is None.
         The new variable name is kept to a maximum length of <max_len>.
+        The new name is not one of the (lower case) names in <used>.
         """
         index = 0
         if prefix is None:
@@ -2117,7 +2132,8 @@ class VarDictionary(OrderedDict):
             if len(newvar) > max_len:
                 var_prefix = var_prefix[:-1]
                 newvar = None
-            elif newvar.lower() in self.__local_names:
+            elif ((newvar.lower() in self.__local_names) or
+                  (newvar.lower() in used)):
                 newvar = None
             # end if
         # end while
diff --git a/scripts/suite_objects.py b/scripts/suite_objects.py
index 6ba9c1d..21c62fd 100755
--- a/scripts/suite_objects.py
+++ b/scripts/suite_objects.py
@@ -30,6 +30,8 @@ from var_props import VarCompatObj
 
 _OBJ_LOC_RE = re.compile(r"(0x[0-9A-Fa-f]+)>")
 _BLANK_DIMS_RE = re.compile(r"[(][:](,:)*[)]$")
+# Maximum length of a Fortran name
+_MAX_LNAME_LEN = 63
 
 # Source for internally generated variables.
 _API_SOURCE_NAME = "CCPP_API"
@@ -2365,7 +2367,7 @@ class Group(SuiteObject):
         """Return a local name for a group-cap copy of or pointer to <var>.
         The name begins with <prefix>. It may be shared with other variables in
         <used> (a dictionary) only if those have the same declaration."""
-        lname = prefix
+        lname = prefix[:_MAX_LNAME_LEN]
         index = 0
         while True:
             if lname.lower() in used:
@@ -2378,9 +2380,35 @@ class Group(SuiteObject):
                 return lname
             # end if
             index += 1
-            lname = f"{prefix}{index}"
+            lname = f"{prefix[:_MAX_LNAME_LEN - len(str(index))]}{index}"
         # end while
 
+    def resolve_local_names(self, reserved):
+        """Rename this Group's dummy arguments and managed variables which
+        have the local name of another entity used by the Group's subroutine.
+        <reserved> is a set of (lower case) names which cannot be used.
+        Return the set of all the (lower case) names in use.
+        Note: The schemes look for the variables by standard name so this can
+              be done at any time before the Group is written."""
+        used = set(reserved)
+        for module, subname in self._local_schemes:
+            used.add(module.lower())
+            used.add(subname.lower())
+        # end for
+        used.update([x.get_prop_value('local_name').lower()
+                     for x in self.transform_locals])
+        used.update([x.lower() for x in self.local_pointers])
+        for vdict in [self.call_list, self]:
+            for stdname in list(vdict.keys()):
+                var = vdict[stdname]
+                if var.get_prop_value('type') != 'ccpp_constituent_properties_t':
+                    vdict.make_local_name_unique(stdname, used)
+                # end if
+                used.add(vdict[stdname].get_prop_value('local_name').lower())
+            # end for
+        # end for
+        return used
+
     def transform_local_name(self, var):
         """Return a name for the local variable used to transform <var>"""
         used = {x.get_prop_value('local_name').lower() : x
-- 
2.43.0


From 9124daa07d5420f8aec959656ae7e7ea1cc1a8b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:36 +0000
Subject: [PATCH 31/89] fix: give suite variables with a default value that
 value

---
 scripts/suite_objects.py | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/scripts/suite_objects.py b/scripts/suite_objects.py
index 21c62fd..3d74e95 100755
--- a/scripts/suite_objects.py
+++ b/scripts/suite_objects.py
@@ -2353,6 +2353,16 @@ class Group(SuiteObject):
             raise CCPPError(emsg)
         # end if
 
+    def __write_default_value(self, var, outfile, indent):
+        """Set <var> (a variable managed by the framework) to its default value
+        if it has one"""
+        def_val = var.get_prop_value('default_value')
+        is_copy = [x for x in self.transform_locals if x is var]
+        if def_val and (not is_copy):
+            outfile.write(f"{var.get_prop_value('local_name')} = {def_val}",
+                          indent)
+        # end if
+
     @staticmethod
     def __same_declaration(var1, var2):
         """Return True iff a local variable can be shared by <var1> and <var2>"""
@@ -2726,6 +2736,11 @@ class Group(SuiteObject):
             dims = var.get_dimensions()
             alloc_str = self.allocate_dim_str(dims, var.context)
             outfile.write(alloc_stmt.format(lname, alloc_str), indent+1)
+            self.__write_default_value(var, outfile, indent+1)
+        # end for
+        for lname in sorted(subpart_scalar_vars):
+            self.__write_default_value(subpart_scalar_vars[lname][0], outfile,
+                                       indent+1)
         # end for
         for lname in sorted(optional_var_set):
             var = subpart_optional_vars[lname][0]
@@ -2738,15 +2753,16 @@ class Group(SuiteObject):
             outfile.write('\n! Allocate suite_vars', indent+1)
             for svar in suite_vars.variable_list():
                 dims = svar.get_dimensions()
-                if dims:
-                    timestep_var = svar.get_prop_value('persistence')
-                    if group_type == timestep_var:
+                timestep_var = svar.get_prop_value('persistence')
+                if group_type == timestep_var:
+                    if dims:
                         alloc_str = self.allocate_dim_str(dims, svar.context)
                         lname = svar.get_prop_value('local_name')
                         outfile.write(alloc_stmt.format(lname, alloc_str),
                                       indent+1)
-                    # end if (do not allocate in this phase)
-                # end if dims (do not allocate scalars)
+                    # end if dims (do not allocate scalars)
+                    self.__write_default_value(svar, outfile, indent+1)
+                # end if (do not allocate in this phase)
             # end for
         # end if
         # Write the scheme and subcycle calls
-- 
2.43.0


From 29c3472e82e1981c52f09cf697f0fefcdc13642c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:44 +0000
Subject: [PATCH 32/89] fix: Apply the array section to the converted variable
 in prebuild caps

---
 scripts/mkstatic.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/scripts/mkstatic.py b/scripts/mkstatic.py
index 5c7464c..bdbcf8d 100755
--- a/scripts/mkstatic.py
+++ b/scripts/mkstatic.py
@@ -1753,10 +1753,9 @@ end module {module}
                                 actions_in += f'        allocate({tmpvar.local_name}{dim_string_allocate})\n'
                             if var.actions['in']:
                                 # Add unit conversion before entering the subroutine
-                                actions_in += '        {t} = {c}{d}\n'.format(t=tmpvar.local_name,
-                                                                              c=var.actions['in'].format(var=tmpvar.target.replace(dim_string_target_name, ''),
-                                                                                                         kind=kind_string),
-                                                                              d=dim_string)
+                                actions_in += '        {t} = {c}\n'.format(t=tmpvar.local_name,
+                                                                           c=var.actions['in'].format(var=tmpvar.target.replace(dim_string_target_name, '') + dim_string,
+                                                                                                      kind=kind_string))
                                 # If the variable is conditionally allocated, assign pointer
                                 if not conditional == '.true.':
                                     actions_in += '        {p} => {t}{d}\n'.format(p=f"{tmpptr.local_name}_array({CCPP_INTERNAL_VARIABLES[CCPP_THREAD_NUMBER]})%p",
-- 
2.43.0


From 0a2861c2c23c1c2bdefe26557b661f744ade4582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:44 +0000
Subject: [PATCH 33/89] fix: Declare double precision variables without a kind

---
 scripts/metavar.py       | 8 ++++++++
 scripts/suite_objects.py | 4 ++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/scripts/metavar.py b/scripts/metavar.py
index 519f2e7..81aa5aa 100755
--- a/scripts/metavar.py
+++ b/scripts/metavar.py
@@ -1062,6 +1062,10 @@ class Var:
             vtype = self.get_prop_value('type')
         # end if
         kind = self.get_prop_value('kind')
+        if ''.join(vtype.lower().split()) == 'doubleprecision':
+            # Double precision is a type with a fixed kind
+            kind = ''
+        # end if
         name = self.get_prop_value('local_name')
         aref = self.array_ref(local_name=name)
         if aref is not None:
@@ -1162,6 +1166,10 @@ class Var:
     def write_ptr_def(self, outfile, indent, name, kind, dimstr, vtype, extra_space=0):
         """Write the definition line for local null pointer declaration to <outfile>."""
         comma = ', '
+        if ''.join(vtype.lower().split()) == 'doubleprecision':
+            # Double precision is a type with a fixed kind
+            kind = ''
+        # end if
         if kind:
             dstr = "{type}({kind}){cspace}pointer          :: {name}{dims}{cspace2} => null()"
             cspace = comma + ' '*(extra_space + 20 - len(vtype) - len(kind))
diff --git a/scripts/suite_objects.py b/scripts/suite_objects.py
index 3d74e95..fb47f05 100755
--- a/scripts/suite_objects.py
+++ b/scripts/suite_objects.py
@@ -1373,9 +1373,9 @@ class Scheme(SuiteObject):
             vkind = var.get_prop_value('kind')
             units = var.get_prop_value('units')
         if vkind:
-            internal_var_lname = f'internal_var_{vtype.replace("=","_")}_{vkind.replace("=","_")}'
+            internal_var_lname = f'internal_var_{vtype.replace("=","_").replace(" ","_")}_{vkind.replace("=","_")}'
         else:
-            internal_var_lname = f'internal_var_{vtype.replace("=","_")}'
+            internal_var_lname = f'internal_var_{vtype.replace("=","_").replace(" ","_")}'
         if var.is_ddt():
             internal_var = Var({'local_name':internal_var_lname, 'standard_name':f'{internal_var_lname}_local',
                          'ddt_type':vtype, 'kind':vkind, 'units':units, 'dimensions':'()'},
-- 
2.43.0


From a5b39085758576237a80badf67b5bb76d07b6a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:03 +0000
Subject: [PATCH 34/89] fix: Validate names, dimensions, literals and numbers
 by their grammar

---
 scripts/parse_tools/parse_checkers.py | 149 +++++++++++++-------------
 scripts/var_props.py                  |  10 +-
 2 files changed, 80 insertions(+), 79 deletions(-)

diff --git a/scripts/parse_tools/parse_checkers.py b/scripts/parse_tools/parse_checkers.py
index 469bf1d..e900dcb 100755
--- a/scripts/parse_tools/parse_checkers.py
+++ b/scripts/parse_tools/parse_checkers.py
@@ -13,7 +13,7 @@ from parse_source import CCPPError, ParseInternalError
 ########################################################################
 
 _UNITLESS_REGEX                = "1"
-_NON_LEADING_ZERO_NUM          = "[1-9]\d*"
+_NON_LEADING_ZERO_NUM          = "[1-9][0-9]*"
 _CHAR_WITH_UNDERSCORE          = "([a-zA-Z]+_[a-zA-Z]+)+"
 _NEGATIVE_NON_LEADING_ZERO_NUM = f"[-]{_NON_LEADING_ZERO_NUM}"
 _UNIT_EXPONENT                 = f"({_NEGATIVE_NON_LEADING_ZERO_NUM}|{_NON_LEADING_ZERO_NUM})"
@@ -21,6 +21,9 @@ _UNIT_REGEX                    = f"[a-zA-Z]+{_UNIT_EXPONENT}?"
 _UNITS_REGEX                   = f"^({_CHAR_WITH_UNDERSCORE}|{_UNIT_REGEX}(\s{_UNIT_REGEX})*|{_UNITLESS_REGEX})$"
 _UNITS_RE                      = re.compile(_UNITS_REGEX)
 _MAX_MOLAR_MASS                = 10000.0
+_INTEGER_RE                    = re.compile(r"[+-]?[0-9]+\Z")
+_REAL_RE                       = re.compile(r"[+-]?([0-9]+[.][0-9]*|[.][0-9]+)([eE][+-]?[0-9]+)?\Z")
+_NUMBER_RE                     = re.compile(r"\s*[+-]?([0-9]+[.]?[0-9]*|[.][0-9]+)([eE][+-]?[0-9]+)?\s*\Z")
 
 def check_units(test_val, prop_dict, error):
     """Return <test_val> if a valid unit, otherwise, None
@@ -120,26 +123,19 @@ def check_dimensions(test_val, prop_dict, error, max_len=0):
             tdims = [x.strip() for x in isplit if len(x) > 0]
             for tdim in tdims:
                 # Check numeric value first
-                try:
-                    valid = isinstance(int(tdim), int)
-                except ValueError as ve:
+                valid = _INTEGER_RE.match(tdim) is not None
+                if (not valid) and (tdim[0:4].lower() == 'size') and ('(' in tdim):
+                    # Check for size entry -- simple check
+                    valid = -1 not in check_balanced_paren(tdim[4:])
+                    if not valid:
+                        emsg = 'Invalid dimension component, {}'
+                        raise CCPPError(emsg.format(tdim))
+                    # end if
+                elif not valid:
                     # Not an integer, try a Fortran ID
                     valid = check_fortran_id(tdim, None,
                                              error, max_len=max_len) is not None
-                    if not valid:
-                        # Check for size entry -- simple check
-                        tcheck = tdim.strip().lower()
-                        if tcheck[0:4] == 'size':
-                            ploc = check_balanced_paren(tdim[4:])
-                            if -1 in ploc:
-                                emsg = 'Invalid dimension component, {}'
-                                raise CCPPError(emsg.format(tdim))
-                            else:
-                                valid = tdim
-                            # end if
-                        # end if
-                    # end if
-                # End try
+                # end if
                 if not valid:
                     if error:
                         errmsg = "'{}' is an invalid dimension name"
@@ -158,7 +154,7 @@ def check_dimensions(test_val, prop_dict, error, max_len=0):
 
 # CF_ID is a string representing the regular expression for CF Standard Names
 CF_ID = r"(?i)[a-z][a-z0-9_]*"
-__CFID_RE = re.compile(CF_ID+r"$")
+__CFID_RE = re.compile(CF_ID+r"\Z", re.ASCII)
 
 def check_cf_standard_name(test_val, prop_dict, error):
     """Return <test_val> if a valid CF Standard Name, otherwise, None
@@ -208,7 +204,7 @@ def check_cf_standard_name(test_val, prop_dict, error):
 
 # FORTRAN_ID is a string representing the regular expression for Fortran names
 FORTRAN_ID = r"([A-Za-z][A-Za-z0-9_]*)"
-__FID_RE = re.compile(FORTRAN_ID+r"$")
+__FID_RE = re.compile(FORTRAN_ID+r"\Z")
 # Note that the scalar array reference expressions below are not really for
 # scalar references because a colon can be a placeholder, unlike in Fortran code
 __FORTRAN_AID = r"(?:[A-Za-z][A-Za-z0-9_]*)"
@@ -219,14 +215,14 @@ __FORTRAN_SCALAR_ARREF = r"[(]\s*("+__FORT_DIM+r"\s*"+__REPEAT_DIM+r"{0,6})[)]"
 # FORTRAN_SCALAR_REF: Pattern of a valid Fortran array reference
 #    NB: Only allows symbols, no expressions and/or function calls
 FORTRAN_SCALAR_REF = r"(?:"+FORTRAN_ID+r"\s*"+__FORTRAN_SCALAR_ARREF+r")"
-FORTRAN_SCALAR_REF_RE = re.compile(FORTRAN_SCALAR_REF+r"$")
+FORTRAN_SCALAR_REF_RE = re.compile(FORTRAN_SCALAR_REF+r"\Z")
 # FORTRAN_FUNCTION_REF: A Fortran function reference
 #    NB: Currenly does not support function arguments
 FORTRAN_FUNCTION_REF = r"(?:"+FORTRAN_ID+r"\s*[(]\s*[)])"
 FORTRAN_FUNCTION_REF_RE = re.compile(FORTRAN_FUNCTION_REF)
 FORTRAN_INTRINSIC_TYPES = ["integer", "real", "logical", "complex",
                            "double precision", "character"]
-FORTRAN_DP_RE = re.compile(r"(?i)double\s*precision")
+FORTRAN_DP_RE = re.compile(r"(?i)double\s*precision\s*\Z")
 FORTRAN_TYPE_RE = re.compile(r"(?i)type\s*\(\s*("+FORTRAN_ID+r")\s*\)")
 
 _REGISTERED_FORTRAN_DDT_NAMES = []
@@ -293,9 +289,21 @@ def fortran_list_match(test_str):
     >>> fortran_list_match('(foo, bar')
 
     """
-    parens, parene = check_balanced_paren(test_str)
-    if (parens >= 0) and (parene > parens):
-        litems = [x.strip() for x in test_str[parens+1:parene].split(',')]
+    list_str = test_str.strip()
+    parens, parene = check_balanced_paren(list_str)
+    if (parens == 0) and (parene == len(list_str) - 1):
+        # Only commas which are not inside of parentheses separate items
+        litems = ['']
+        depth = 0
+        for char in list_str[1:-1]:
+            if (char == ',') and (depth == 0):
+                litems.append('')
+            else:
+                depth += (char == '(') - (char == ')')
+                litems[-1] += char
+            # end if
+        # end for
+        litems = [x.strip() for x in litems]
         if (len(litems) > 1) and (min([len(x) for x in litems]) == 0):
             litems = None
         # end if
@@ -443,7 +451,8 @@ def check_local_name(test_val, prop_dict, error, max_len=0):
     else:
         kind = ""
     # end if
-    if protected and vtype and check_fortran_literal(test_val, vtype, kind):
+    is_intrinsic = vtype and (check_fortran_intrinsic(vtype) is not None)
+    if protected and is_intrinsic and check_fortran_literal(test_val, vtype, kind):
         valid_val = test_val
     # end if
     if valid_val is None:
@@ -654,7 +663,7 @@ def check_fortran_literal(value, typestr, kind):
     # Check complex first
     if vtype == 'complex':
         cvals = value.strip().split(',')
-        if len(cvals) == 2:
+        if (len(cvals) == 2) and cvals[0] and cvals[1]:
             tp = 'integer'
             if ('.' in cvals[0]) and ('.' in cvals[1]):
                 tp = 'real'
@@ -670,59 +679,41 @@ def check_fortran_literal(value, typestr, kind):
         else:
             valid = False
     elif valid:
-        vparts = value.strip().split('_')
+        val = value.strip()
+        vkind = ''
         if vtype == 'character':
-            if len(vparts) > 1:
-                val = vparts[-1]
-                vkind = '_'.join(vparts[0:-1])
-            else:
-                val = vparts[0]
-                vkind = ''
+            if kind.lower().startswith('len='):
+                # A length is not a kind, it is not part of the literal
+                kind = ''
             # end if
-        else:
-            val = vparts[0]
-            if len(vparts) > 1:
-                vkind = '_'.join(vparts[1:])
-            else:
-                vkind = ''
+            kmatch = re.match(r"(\w+)_(?=['\"])", val, re.ASCII)
+            if kmatch is not None:
+                vkind = kmatch.group(1)
+                val = val[kmatch.end():]
+            # end if
+        elif '_' in val:
+            val, vkind = val.split('_', 1)
+            if not vkind:
+                valid = False
             # end if
         # end if
-        if vkind != kind.lower():
+        if vkind.lower() != kind.lower():
             valid = False
         # end if, kind is okay, check value
-        if valid and (vtype == 'integer'):
-            try:
-                vtest = int(val)
-            except ValueError as ve:
-                valid = False
-            # End try
-        elif valid and (vtype == 'real'):
-            if '.' not in val:
-                valid = False
-            else:
-                try:
-                    vtest = float(val)
-                except ValueError as ve:
-                    valid = False
-                # End try
-            # end if
-        elif valid and (vtype == 'logical'):
-            valid = (val.upper() == '.TRUE.') or (val.upper() == '.FALSE.')
-        elif valid and (vtype == 'character'):
-            sep = val[0]
-            cparts = val.split(sep)
-            # We must have balanced delimiters
-            if len(cparts)%2 == 0:
-                valid = False
-            else:
-                for index in range(len(cparts)):
-                    if (index%2 == 0) and (len(cparts[index]) > 0):
-                        valid = False
-                        break
-                    # end if
-                # end for
-            # end if (else okay)
-        elif valid:
+        if vtype == 'integer':
+            valid = valid and (_INTEGER_RE.match(val) is not None)
+        elif vtype == 'real':
+            valid = valid and (_REAL_RE.match(val) is not None)
+        elif vtype == 'logical':
+            valid = valid and (val.upper() in ['.TRUE.', '.FALSE.'])
+        elif vtype == 'character':
+            # The value must begin and end with the same delimiter and any
+            # delimiter in between must be doubled
+            sep = val[0:1]
+            valid = (valid and (len(val) > 1) and (sep in ['"', "'"]) and
+                     (val[-1] == sep) and
+                     (sep not in val[1:-1].replace(2*sep, '')))
+        else:
             errmsg = "ERROR: '{}' is not a Fortran intrinsic type"
             raise ParseInternalError(errmsg.format(typestr))
         # end if (no else)
@@ -770,7 +761,8 @@ def check_default_value(test_val, prop_dict, error):
         else:
             vkind = ''
         # end if
-        if not check_fortran_literal(test_val, var_type, vkind):
+        if ((check_fortran_intrinsic(var_type) is None) or
+            (not check_fortran_literal(test_val, var_type, vkind))):
             valid = None
             if error:
                 emsg = '{} is not a valid Fortran {}'
@@ -859,7 +851,7 @@ def check_diagnostic_fixed(test_val, prop_dict, error):
 _DIAG_PRE = r"("+FORTRAN_ID+")?"
 _DIAG_SUFF = r"([_0-9A-Za-z]+)?"
 _DIAG_PROP = r"((\${process}|\${scheme_name})"+_DIAG_SUFF+r")"
-_DIAG_RE = re.compile(_DIAG_PRE+_DIAG_PROP+r"?$")
+_DIAG_RE = re.compile(_DIAG_PRE+_DIAG_PROP+r"?\Z")
 
 def check_diagnostic_id(test_val, prop_dict, error):
     """Return <test_val> if a valid descriptor for a CCPP diagnostic,
@@ -976,8 +968,11 @@ def check_molar_mass(test_val, prop_dict, error):
     """
     # Check if input value is an int or float
     try:
+        if isinstance(test_val, str) and (_NUMBER_RE.match(test_val) is None):
+            raise ValueError(f"{test_val} is not a number")
+        # end if
         test_val = float(test_val)
-        if test_val < 0.0 or test_val > _MAX_MOLAR_MASS:
+        if not (0.0 <= test_val <= _MAX_MOLAR_MASS):
            if error:
                raise CCPPError(f"{test_val} is not a valid molar mass")
            else:
diff --git a/scripts/var_props.py b/scripts/var_props.py
index fcbed74..197dcc8 100755
--- a/scripts/var_props.py
+++ b/scripts/var_props.py
@@ -681,6 +681,9 @@ class VariableProperty:
         valid_val = None
         if self.ptype is int:
             try:
+                if isinstance(test_value, str) and ('_' in test_value):
+                    raise ValueError("digit separators are not allowed")
+                # end if
                 tval = int(test_value)
                 if self._valid_values is not None:
                     if tval in self._valid_values:
@@ -689,10 +692,13 @@ class VariableProperty:
                         valid_val = None # i.e. pass
                 else:
                     valid_val = tval
-            except CCPPError:
+            except (TypeError, ValueError):
                 valid_val = None # Redundant but more expressive than pass
         elif self.ptype is float:
             try:
+                if isinstance(test_value, str) and ('_' in test_value):
+                    raise ValueError("digit separators are not allowed")
+                # end if
                 tval = float(test_value)
                 if self._valid_values is not None:
                     if tval in self._valid_values:
@@ -703,7 +709,7 @@ class VariableProperty:
                 else:
                     valid_val = tval
                 # end if
-            except CCPPError:
+            except (TypeError, ValueError):
                 valid_val = None
             # end try
         elif self.ptype is list:
-- 
2.43.0


From ae446cf27c3675c9e9b24c6d6b2ca11ede87effa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:22 +0000
Subject: [PATCH 35/89] fix: Evaluate preprocessor conditionals as a C
 preprocessor does

---
 scripts/fortran_tools/parse_fortran_file.py |   5 +
 scripts/parse_tools/preprocess.py           | 235 +++++++++++++-------
 2 files changed, 156 insertions(+), 84 deletions(-)

diff --git a/scripts/fortran_tools/parse_fortran_file.py b/scripts/fortran_tools/parse_fortran_file.py
index 9bc39ef..4aa21d1 100644
--- a/scripts/fortran_tools/parse_fortran_file.py
+++ b/scripts/fortran_tools/parse_fortran_file.py
@@ -347,6 +347,10 @@ def read_file(filename, preproc_defs=None, logger=None):
     Remvoved code results in blank lines, not removed lines
     """
     preproc_status = PreprocStack()
+    if preproc_defs is not None:
+        # A #define or #undef in this file only applies to this file
+        preproc_defs = dict(preproc_defs)
+    # end if
     if not os.path.exists(filename):
         raise IOError("read_file: file, '{}', does not exist".format(filename))
     # end if
@@ -455,6 +459,7 @@ def read_file(filename, preproc_defs=None, logger=None):
         # End if
         curr_line, curr_line_num = pobj.next_line()
     # End while
+    preproc_status.check_complete(pobj)
     return pobj
 
 ########################################################################
diff --git a/scripts/parse_tools/preprocess.py b/scripts/parse_tools/preprocess.py
index 06b9414..d85f348 100755
--- a/scripts/parse_tools/preprocess.py
+++ b/scripts/parse_tools/preprocess.py
@@ -10,7 +10,8 @@ import ast
 # CCPP Framewor imports
 from parse_source import ParseSyntaxError
 
-__defined_re__ = re.compile(r"defined\s+([A-Za-z0-9_]+)")
+__defined_re__ = re.compile(r"\bdefined\s+([A-Za-z0-9_]+)")
+__comment_re__ = re.compile(r"/[*].*?[*]/")
 
 ###############################################################################
 
@@ -23,20 +24,61 @@ class PreprocError(ValueError):
 
 def preproc_bool(value):
     """Turn a preprocessor value into a boolean"""
-    if isinstance(value, bool):
-        line_val = value
+    if isinstance(value, (bool, int)):
+        line_val = value != 0
     else:
-        try:
-            ival = int(value)
-            line_val = ival != 0
-        except ValueError:
-            line_val = value != "0"
-        # end try
+        # An undefined symbol is False
+        line_val = False
     # end if
     return line_val
 
 ########################################################################
 
+def preproc_symbol_value(symbol, preproc_defs):
+    """Return the value of the preprocessor <symbol>.
+    The value of an undefined symbol is its name."""
+    if symbol not in preproc_defs:
+        return symbol
+    # end if
+    value = preproc_defs[symbol]
+    if value is None:
+        # A symbol defined without a value (i.e., -DFOO) has value, 1
+        return 1
+    # end if
+    if isinstance(value, str):
+        # A definition may itself contain symbols (except for <symbol>)
+        other_defs = {x : preproc_defs[x] for x in preproc_defs if x != symbol}
+        value = preproc_item_value(preproc_syntax_tree(value), other_defs)
+    # end if
+    return value
+
+########################################################################
+
+def preproc_compare(left_val, oper, right_val):
+    """Return the result of comparing two preprocessor values"""
+    if isinstance(oper, ast.Eq):
+        value = left_val == right_val
+    elif isinstance(oper, ast.NotEq):
+        value = left_val != right_val
+    elif isinstance(left_val, str) or isinstance(right_val, str):
+        # Only defined symbols have a numerical value
+        value = False
+    elif isinstance(oper, ast.Gt):
+        value = left_val > right_val
+    elif isinstance(oper, ast.GtE):
+        value = left_val >= right_val
+    elif isinstance(oper, ast.Lt):
+        value = left_val < right_val
+    elif isinstance(oper, ast.LtE):
+        value = left_val <= right_val
+    else:
+        emsg = "Unknown comparison operator, {}"
+        raise PreprocError(emsg.format(oper))
+    # end if
+    return value
+
+########################################################################
+
 def preproc_item_value(item, preproc_defs):
     """Find the value of a preproc <item> (part of a parsed
     preprocessor line)"""
@@ -66,64 +108,67 @@ def preproc_item_value(item, preproc_defs):
             raise PreprocError("Cannot parse function {}".format(func))
         # end if
     elif isinstance(item, ast.BoolOp):
-        left_val = preproc_item_value(item.values[0], preproc_defs)
-        right_val = preproc_item_value(item.values[1], preproc_defs)
+        vals = [preproc_bool(preproc_item_value(x, preproc_defs))
+                for x in item.values]
         oper = item.op
         if isinstance(oper, ast.And):
-            value = preproc_bool(left_val) and preproc_bool(right_val)
+            value = all(vals)
         elif isinstance(oper, ast.Or):
-            value = preproc_bool(left_val) or preproc_bool(right_val)
+            value = any(vals)
         else:
             raise PreprocError("Unknown binary operator, {}".format(oper))
         # end if
     elif isinstance(item, ast.UnaryOp):
         val = preproc_item_value(item.operand, preproc_defs)
         oper = item.op
-        if isinstance(oper, ast.Not):
+        if isinstance(oper, ast.Invert):
             value = not preproc_bool(val)
+        elif isinstance(oper, ast.USub) and not isinstance(val, str):
+            value = -val
+        elif isinstance(oper, ast.UAdd) and not isinstance(val, str):
+            value = val
         else:
             raise PreprocError("Unknown unary operator, {}".format(oper))
         # end if
-    elif isinstance(item, ast.Compare):
+    elif isinstance(item, ast.BinOp):
         left_val = preproc_item_value(item.left, preproc_defs)
-        value = True
-        for index in range(len(item.ops)):
-            oper = item.ops[index]
-            rcomp = item.comparators[index]
-            right_val = preproc_item_value(rcomp, preproc_defs)
-            if isinstance(oper, ast.Eq):
-                value = value and (left_val == right_val)
-            elif isinstance(oper, ast.NotEq):
-                value = value and (left_val != right_val)
-            else:
-                # What remains are numerical comparisons, use integers
-                try:
-                    ilval = int(left_val)
-                    irval = int(right_val)
-                    if isinstance(oper, ast.Gt):
-                        value = value and (ilval > irval)
-                    elif isinstance(oper, ast.GtE):
-                        value = value and (ilval >= irval)
-                    elif isinstance(oper, ast.Lt):
-                        value = value and (ilval < irval)
-                    elif isinstance(oper, ast.LtE):
-                        value = value and (ilval <= irval)
-                    else:
-                        emsg = "Unknown comparison operator, {}"
-                        raise PreprocError(emsg.format(oper))
-                    # end if
-                except ValueError:
-                    value = False
-                # end try
-            # end if
-        # end for
-    elif isinstance(item, ast.Name):
-        id_key = item.id
-        if id_key in preproc_defs:
-            value = preproc_defs[id_key]
+        right_val = preproc_item_value(item.right, preproc_defs)
+        if isinstance(left_val, str) or isinstance(right_val, str):
+            raise PreprocError("Undefined symbol in {}".format(ast.dump(item)))
+        # end if
+        oper = item.op
+        if isinstance(oper, ast.Add):
+            value = left_val + right_val
+        elif isinstance(oper, ast.Sub):
+            value = left_val - right_val
+        elif isinstance(oper, ast.Mult):
+            value = left_val * right_val
         else:
-            value = id_key
+            raise PreprocError("Unknown binary operator, {}".format(oper))
         # end if
+    elif isinstance(item, ast.Compare):
+        # In a preprocessor line, relations such as '<' bind more closely than
+        # '==' and '!=', operators at one level are evaluated from the left.
+        vals = [preproc_item_value(x, preproc_defs)
+                for x in [item.left] + item.comparators]
+        opers = list(item.ops)
+        for is_level in (lambda x: not isinstance(x, (ast.Eq, ast.NotEq)),
+                         lambda x: True):
+            index = 0
+            while index < len(opers):
+                if is_level(opers[index]):
+                    vals[index:index+2] = [preproc_compare(vals[index],
+                                                           opers[index],
+                                                           vals[index+1])]
+                    del opers[index]
+                else:
+                    index = index + 1
+                # end if
+            # end while
+        # end for
+        value = vals[0]
+    elif isinstance(item, ast.Name):
+        value = preproc_symbol_value(item.id, preproc_defs)
     elif isinstance(item, ast.Num):
         value = item.n
     else:
@@ -133,9 +178,10 @@ def preproc_item_value(item, preproc_defs):
 
 ########################################################################
 
-def parse_preproc_line(line, preproc_defs):
-    """Parse a preprocessor line into a tree that can be evaluated"""
+def preproc_syntax_tree(line):
+    """Parse a preprocessor expression into a tree that can be evaluated"""
     # Scan line and translate to python syntax
+    line = __comment_re__.sub(' ', line).strip()
     inchar = None # Character context
     line_len = len(line)
     pline = ""
@@ -158,10 +204,14 @@ def parse_preproc_line(line, preproc_defs):
         elif line[index:index+2] == '||':
             pline = pline + 'or'
             index = index + 1
+        elif line[index:index+2] == '!=':
+            pline = pline + '!='
+            index = index + 1
         elif line[index] == '!':
-            pline = pline + "not"
+            # Note that Python's 'not' does not bind as closely as '!'
+            pline = pline + "~"
         else:
-            match = __defined_re__.match(line[index:])
+            match = __defined_re__.match(line, index)
             if match is None:
                 # Just copy current character
                 pline = pline + line[index]
@@ -173,18 +223,23 @@ def parse_preproc_line(line, preproc_defs):
         # end if
         index = index + 1
     # end while
+    ast_line = ast.parse(pline)
+    # We should only have one 'statement'
+    if len(ast_line.body) != 1:
+        raise PreprocError("Invalid expression, {}".format(line))
+    # end if
+    return ast_line.body[0]
+
+########################################################################
+
+def parse_preproc_line(line, preproc_defs):
+    """Find the value of a preprocessor line.
+    Return a second value of False if <line> cannot be processed."""
     try:
-        ast_line = ast.parse(pline)
-        # We should only have one 'statement'
-        if len(ast_line.body) != 1:
-            line_val = False
-            success = False
-        else:
-            value = preproc_item_value(ast_line.body[0], preproc_defs)
-            line_val = preproc_bool(value)
-            success = True
-        # end if
-    except SyntaxError:
+        value = preproc_item_value(preproc_syntax_tree(line), preproc_defs)
+        line_val = preproc_bool(value)
+        success = True
+    except (SyntaxError, PreprocError, AttributeError):
         line_val = False
         success = False
     # end try
@@ -195,14 +250,14 @@ def parse_preproc_line(line, preproc_defs):
 class PreprocStack(object):
     """Class to handle preprocess regions"""
 
-    ifdef_re = re.compile(r"#\s*ifdef\s+(.*)")
-    ifndef_re = re.compile(r"#\s*ifndef\s+(.*)")
-    if_re = re.compile(r"#\s*if([^dn].*)")
-    elif_re = re.compile(r"#\s*elif\s(.*)")
-    ifelif_re = re.compile(r"#\s*(?:el)?if\s(.*)")
-    else_re = re.compile(r"#\s*else")
-    end_re = re.compile(r"#\s*endif")
-    define_re = re.compile(r"#\s*define\s+([A-Za-z0-9_]+)\s+([^\s]*)")
+    ifdef_re = re.compile(r"#\s*ifdef\s+([A-Za-z0-9_]+)")
+    ifndef_re = re.compile(r"#\s*ifndef\s+([A-Za-z0-9_]+)")
+    if_re = re.compile(r"#\s*if\b(.*)")
+    elif_re = re.compile(r"#\s*elif\b(.*)")
+    ifelif_re = re.compile(r"#\s*(?:el)?if\b(.*)")
+    else_re = re.compile(r"#\s*else\b")
+    end_re = re.compile(r"#\s*endif\b")
+    define_re = re.compile(r"#\s*define\s+([A-Za-z0-9_]+)(?:[(][^)]*[)]|)(.*)")
     undef_re = re.compile(r"#\s*undef\s+([A-Za-z0-9_]+)")
 
     def __init__(self):
@@ -332,7 +387,7 @@ class PreprocStack(object):
                 if match is not None:
                     line_val, success = self.process_if_line(sline,
                                                              preproc_defs)
-                    self.modify_region(line_val)
+                    self.modify_region(line_val, pobj)
                     if (not success) and (logger is not None):
                         lmsg = "WARNING: Preprocessor #elif statement not handled, at {}"
                         logger.warning(lmsg.format(pobj))
@@ -344,7 +399,7 @@ class PreprocStack(object):
                 if match is not None:
                     # Always try to use True for else, modify_region will set
                     # correct value
-                    self.modify_region(True)
+                    self.modify_region(True, pobj, is_else=True)
                 # end if
             # end if
             if match is None:
@@ -357,7 +412,8 @@ class PreprocStack(object):
                 match = PreprocStack.define_re.match(sline)
                 if match is not None:
                     # Add (or replace) a symbol to our defs
-                    preproc_defs[match.group(1)] = match.group(2)
+                    value = __comment_re__.sub(' ', match.group(2)).strip()
+                    preproc_defs[match.group(1)] = value
                 # end if
             # end if
             if (match is None) and self.in_true_region():
@@ -374,7 +430,7 @@ class PreprocStack(object):
     def enter_region(self, valid):
         """Enter a new region (if, ifdef, ifndef) which may
         currently be valid"""
-        self._region_stack.append([valid, valid])
+        self._region_stack.append([valid, valid, False])
 
     def exit_region(self, pobj):
         """Leave the current (innermost) region"""
@@ -384,17 +440,28 @@ class PreprocStack(object):
         # end if
         self._region_stack.pop()
 
-    def modify_region(self, valid):
+    def modify_region(self, valid, pobj, is_else=False):
         """Possibly modify the current (innermost) region.
         A region can be modified from False to True.
         Any attempt to modify a region which has been True results in False
         because after a region has been True, any #elif or #else must skipped.
+        <is_else> is True if the new region begins with #else.
         """
-        curr_region = self._region_stack.pop()
-        if curr_region[0]:
-            self._region_stack.append([curr_region[0], False])
-        else:
-            self._region_stack.append([curr_region[0], valid])
+        if (not self._region_stack) or self._region_stack[-1][2]:
+            emsg = "{} found with no matching #if, #ifdef, or #ifndef"
+            raise ParseSyntaxError(emsg.format("#else" if is_else else "#elif"),
+                                   context=pobj)
+        # end if
+        curr_region = self._region_stack[-1]
+        curr_region[1] = valid and (not curr_region[0])
+        curr_region[0] = curr_region[0] or valid
+        curr_region[2] = is_else
+
+    def check_complete(self, pobj):
+        """Raise an exception if there are any open regions"""
+        if self._region_stack:
+            emsg = "#if, #ifdef, or #ifndef found with no matching #endif"
+            raise ParseSyntaxError(emsg, context=pobj)
         # end if
 
     def in_true_region(self):
-- 
2.43.0


From 4eabf684a5bbd2e3ec233347dd4947922b5edfbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:03 +0000
Subject: [PATCH 36/89] fix: Refuse repeated properties, text after headers and
 empty required attributes

---
 scripts/metadata_table.py | 41 ++++++++++++++++++++++++++++++++-------
 1 file changed, 34 insertions(+), 7 deletions(-)

diff --git a/scripts/metadata_table.py b/scripts/metadata_table.py
index 942f8d8..7ac6ddb 100755
--- a/scripts/metadata_table.py
+++ b/scripts/metadata_table.py
@@ -269,7 +269,7 @@ class MetadataTable():
     (ccpp-table-properties section) and all of the associated table
     sections (ccpp-arg-table sections)."""
 
-    __table_start = re.compile(r"(?i)\s*\[\s*ccpp-table-properties\s*\]")
+    __table_start = re.compile(r"(?i)\s*\[\s*ccpp-table-properties\s*\]\s*(?:[#;]|$)")
 
     def __init__(self, run_env, table_name_in=None, table_type_in=None,
                  dependencies=None, relative_path=None,
@@ -364,6 +364,7 @@ class MetadataTable():
         in_properties_header = True
         skip_rest_of_section = False
         self.__dependencies = [] # Default is no dependencies
+        found_props = set()
         # Process lines until the end of the file or start of the next table.
         while ((curr_line is not None) and
                (not MetadataTable.table_start(curr_line))):
@@ -378,6 +379,12 @@ class MetadataTable():
                     # Manually parse name, type, and table properties
                     key = prop[0].strip().lower()
                     value = prop[1].strip()
+                    if key in found_props:
+                        self.__pobj.add_syntax_err("(duplicate) table property",
+                                                   token=key)
+                    elif key != 'dependencies':
+                        found_props.add(key)
+                    # end if
                     if key == 'name':
                         self.__table_name = value
                     elif key == 'type':
@@ -615,7 +622,7 @@ class MetadataSection(ParseSource):
 
 """
 
-    __header_start = re.compile(r"(?i)\s*\[\s*ccpp-arg-table\s*\]")
+    __header_start = re.compile(r"(?i)\s*\[\s*ccpp-arg-table\s*\]\s*(?:[#;]|$)")
 
     __var_start = re.compile(r"^\[\s*"+FORTRAN_ID+r"\s*\]$")
 
@@ -743,6 +750,7 @@ class MetadataSection(ParseSource):
         the first line of the header using the header_start method."""
         start_ctx = context_string(self.__pobj)
         curr_line, _ = self.__pobj.next_line() # Skip past [ccpp-arg-table]
+        found_props = set()
         while ((curr_line is not None) and
                (not MetadataSection.variable_start(curr_line, self.__pobj)) and
                (not MetadataSection.header_start(curr_line)) and
@@ -751,6 +759,12 @@ class MetadataSection(ParseSource):
                 # Manually parse name, type, and module properties
                 key = prop[0].strip().lower()
                 value = prop[1].strip()
+                if key in found_props:
+                    self.__pobj.add_syntax_err("(duplicate) section property",
+                                               token=key)
+                    self.__section_valid = False
+                # end if
+                found_props.add(key)
                 if key == 'name':
                     self.__section_title = value
                 elif key == 'type':
@@ -867,6 +881,7 @@ class MetadataSection(ParseSource):
         if valid_line:
             var_props = {}
             var_props['local_name'] = local_name
+            found_props = set(var_props)
             # Grab context that points at beginning of definition
             context = ParseContext(context=self.__pobj)
         else:
@@ -902,15 +917,17 @@ class MetadataSection(ParseSource):
                     else:
                         # Make sure this is a match
                         check_prop = Var.get_prop(pname)
-                        if check_prop is not None:
-                            pval = check_prop.valid_value(pval_str)
-                        else:
+                        pval = None
+                        if check_prop is None:
                             emsg = "variable property name"
                             self.__pobj.add_syntax_err(emsg, token=pname)
                             self.__section_valid = False
                             var_ok = False
+                        elif pval_str or check_prop.optional:
+                            pval = check_prop.valid_value(pval_str)
+                        # No else, a required property needs a value
                         # end if
-                        if pval is None:
+                        if (check_prop is not None) and (pval is None):
                             errmsg = "'{}' property value"
                             self.__pobj.add_syntax_err(errmsg.format(pname),
                                                        token=pval_str)
@@ -918,6 +935,13 @@ class MetadataSection(ParseSource):
                             var_ok = False
                         # end if
                     # end if
+                    if prop[0].strip().lower() in found_props:
+                        self.__pobj.add_syntax_err("(duplicate) variable property",
+                                                   token=prop[0].strip())
+                        self.__section_valid = False
+                        var_ok = False
+                    # end if
+                    found_props.add(prop[0].strip().lower())
                     if var_ok:
                         # If we get this far, we have a valid property.
                         # Special case for dimensions, turn them into ranges
@@ -1149,7 +1173,10 @@ class MetadataSection(ParseSource):
             mstr = "Section type, '{}', does not match table type, '{}'"
             mismatch += mstr.format(self.header_type, table_type)
         # end if
-        if self.header_type == SCHEME_HEADER_TYPE:
+        if self.title is None:
+            # An error has already been logged for this section
+            sect_func = None
+        elif self.header_type == SCHEME_HEADER_TYPE:
             # For schemes, strip off the scheme function phase (e.g., _init)
             sect_func, _, _ = CCPP_STATE_MACH.function_match(self.title)
         else:
-- 
2.43.0


From 2ca0db34cbfaa7224e330bc9bd8ea709cf5f4aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:03 +0000
Subject: [PATCH 37/89] fix: Report duplicate tables and sections with their
 file and line

---
 scripts/ccpp_capgen.py | 64 ++++++++++++++++++++----------------------
 1 file changed, 30 insertions(+), 34 deletions(-)

diff --git a/scripts/ccpp_capgen.py b/scripts/ccpp_capgen.py
index d6cca0b..8d7f4a3 100755
--- a/scripts/ccpp_capgen.py
+++ b/scripts/ccpp_capgen.py
@@ -470,17 +470,13 @@ def check_fortran_against_metadata(meta_headers, fort_headers,
     # No return, an exception is raised on error
 
 ###############################################################################
-def duplicate_item_error(title, filename, itype, orig_item):
+def duplicate_item_error(title, new_item, itype, orig_item):
 ###############################################################################
     """Raise an error indicating a duplicate item of type, <itype>"""
-    errmsg = "Duplicate {typ}, {title}, found in {file}"
-    edict = {'title':title, 'file':filename, 'typ':itype}
-    ofile = orig_item.context.filename
-    if ofile is not None:
-        errmsg = errmsg + ", original found in {ofile}"
-        edict['ofile'] = ofile
-    # end if
-    raise CCPPError(errmsg.format(**edict))
+    errmsg = "Duplicate {typ}, {title}, found{ctx}, original found{octx}"
+    raise CCPPError(errmsg.format(title=title, typ=itype,
+                                  ctx=new_item.start_context(nodir=False),
+                                  octx=orig_item.start_context(nodir=False)))
 
 ###############################################################################
 def parse_host_model_files(host_filenames, host_name, run_env):
@@ -497,24 +493,15 @@ def parse_host_model_files(host_filenames, host_name, run_env):
         logger.info('Reading host model data from {}'.format(filename))
         # parse metadata file
         mtables = parse_metadata_file(filename, known_ddts, run_env)
-        fort_file = find_associated_fortran_file(filename)
-        ftables, _ = parse_fortran_file(fort_file, run_env)
-        # Check Fortran against metadata (will raise an exception on error)
         mheaders = list()
         for sect in [x.sections() for x in mtables]:
             mheaders.extend(sect)
         # end for
-        fheaders = list()
-        for sect in [x.sections() for x in ftables]:
-            fheaders.extend(sect)
-        # end for
-        check_fortran_against_metadata(mheaders, fheaders,
-                                       filename, fort_file, logger)
         # Check for duplicate tables, then add to dict
         for table in mtables:
             if table.table_name in table_dict:
-                duplicate_item_error(table.table_name, filename,
-                                     table.table_type, table_dict[header.title])
+                duplicate_item_error(table.table_name, table, table.table_type,
+                                     table_dict[table.table_name])
             else:
                 table_dict[table.table_name] = table
             # end if
@@ -522,7 +509,7 @@ def parse_host_model_files(host_filenames, host_name, run_env):
         # Check for duplicate headers, then add to dict
         for header in mheaders:
             if header.title in header_dict:
-                duplicate_item_error(header.title, filename,
+                duplicate_item_error(header.title, header,
                                      header.header_type,
                                      header_dict[header.title])
             else:
@@ -531,6 +518,15 @@ def parse_host_model_files(host_filenames, host_name, run_env):
                     known_ddts.append(header.title)
             # end if
         # end for
+        fort_file = find_associated_fortran_file(filename)
+        ftables, _ = parse_fortran_file(fort_file, run_env)
+        # Check Fortran against metadata (will raise an exception on error)
+        fheaders = list()
+        for sect in [x.sections() for x in ftables]:
+            fheaders.extend(sect)
+        # end for
+        check_fortran_against_metadata(mheaders, fheaders,
+                                       filename, fort_file, logger)
     # end for
     if not host_name:
         host_name = None
@@ -554,25 +550,15 @@ def parse_scheme_files(scheme_filenames, run_env, skip_ddt_check=False):
         # parse metadata file
         mtables = parse_metadata_file(filename, known_ddts, run_env,
                                       skip_ddt_check=skip_ddt_check)
-        fort_file = find_associated_fortran_file(filename)
-        ftables, additional_routines = parse_fortran_file(fort_file, run_env)
-        # Check Fortran against metadata (will raise an exception on error)
         mheaders = list()
         for sect in [x.sections() for x in mtables]:
             mheaders.extend(sect)
         # end for
-        fheaders = list()
-        for sect in [x.sections() for x in ftables]:
-            fheaders.extend(sect)
-        # end for
-        check_fortran_against_metadata(mheaders, fheaders,
-                                       filename, fort_file, logger,
-                                       fortran_routines=additional_routines)
         # Check for duplicate tables, then add to dict
         for table in mtables:
             if table.table_name in table_dict:
-                duplicate_item_error(table.table_name, filename,
-                                     table.table_type, table_dict[header.title])
+                duplicate_item_error(table.table_name, table, table.table_type,
+                                     table_dict[table.table_name])
             else:
                 table_dict[table.table_name] = table
             # end if
@@ -580,7 +566,7 @@ def parse_scheme_files(scheme_filenames, run_env, skip_ddt_check=False):
         # Check for duplicate headers, then add to dict
         for header in mheaders:
             if header.title in header_dict:
-                duplicate_item_error(header.title, filename, header.header_type,
+                duplicate_item_error(header.title, header, header.header_type,
                                      header_dict[header.title])
             else:
                 header_dict[header.title] = header
@@ -589,6 +575,16 @@ def parse_scheme_files(scheme_filenames, run_env, skip_ddt_check=False):
                 # end if
             # end if
         # end for
+        fort_file = find_associated_fortran_file(filename)
+        ftables, additional_routines = parse_fortran_file(fort_file, run_env)
+        # Check Fortran against metadata (will raise an exception on error)
+        fheaders = list()
+        for sect in [x.sections() for x in ftables]:
+            fheaders.extend(sect)
+        # end for
+        check_fortran_against_metadata(mheaders, fheaders,
+                                       filename, fort_file, logger,
+                                       fortran_routines=additional_routines)
     # end for
 
     return header_dict.values(), table_dict
-- 
2.43.0


From d83ee8aa1b64daa7ca391a1508ae7d931c7b1cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:33 +0000
Subject: [PATCH 38/89] fix: Refuse empty table and section names in metadata

---
 scripts/metadata_table.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/scripts/metadata_table.py b/scripts/metadata_table.py
index 7ac6ddb..dad3d7b 100755
--- a/scripts/metadata_table.py
+++ b/scripts/metadata_table.py
@@ -386,6 +386,10 @@ class MetadataTable():
                         found_props.add(key)
                     # end if
                     if key == 'name':
+                        if not value:
+                            self.__pobj.add_syntax_err("metadata table name",
+                                                       token=value)
+                        # end if
                         self.__table_name = value
                     elif key == 'type':
                         if value not in TABLE_TYPES:
@@ -766,6 +770,11 @@ class MetadataSection(ParseSource):
                 # end if
                 found_props.add(key)
                 if key == 'name':
+                    if not value:
+                        self.__pobj.add_syntax_err("metadata section name",
+                                                   token=value)
+                        self.__section_valid = False
+                    # end if
                     self.__section_title = value
                 elif key == 'type':
                     if value not in HEADER_TYPES:
-- 
2.43.0


From 1ef8a9dd464afe5954dea1a9c4a42f7eafbb067c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:58 +0000
Subject: [PATCH 39/89] fix: Parse Fortran declarations with strings, brackets
 and attributes correctly

---
 scripts/fortran_tools/parse_fortran.py | 68 +++++++++++++++++---------
 1 file changed, 45 insertions(+), 23 deletions(-)

diff --git a/scripts/fortran_tools/parse_fortran.py b/scripts/fortran_tools/parse_fortran.py
index e7d3c49..4ccc0f4 100644
--- a/scripts/fortran_tools/parse_fortran.py
+++ b/scripts/fortran_tools/parse_fortran.py
@@ -131,7 +131,7 @@ class Ftype(object):
                 self.__match_len = len(match.group(0))
             # end if
             if check_fortran_intrinsic(match.group(1)):
-                self.__typestr = match.group(1)
+                self.__typestr = ' '.join(match.group(1).split())
                 if match.group(2) is not None:
                     # Parse kind section
                     kmatch = match.group(2).strip()
@@ -221,21 +221,33 @@ class Ftype(object):
         ['dimension(size(Grid%xlon,1),NSPC1)', 'intent(in)']
         """
         var_list = list()
-        proplist = propstr.split(splitstr)
-        while len(proplist) > 0:
-            var = proplist.pop(0)
-            while var.count('(') != var.count(')'):
-                if len(proplist) == 0:
-                    raise ParseSyntaxError(errstr, token=propstr, context=context)
+        var = ''
+        depth = 0 # Nesting level of parentheses and brackets
+        quote = None # Character context
+        for char in propstr:
+            if (char == splitstr) and (depth == 0) and (quote is None):
+                var_list.append(var.strip())
+                var = ''
+                continue
+            # end if
+            if quote is not None:
+                if char == quote:
+                    quote = None
                 # end if
-                var = var + ',' + proplist.pop(0)
-            # end while
-            var = var.strip()
-            if len(var) > 0:
-                var_list.append(var)
+            elif char in "'\"":
+                quote = char
+            elif char in '([':
+                depth += 1
+            elif char in ')]':
+                depth -= 1
             # end if
-        # end while
-        return var_list
+            var += char
+        # end for
+        if (depth != 0) or (quote is not None):
+            raise ParseSyntaxError(errstr, token=propstr, context=context)
+        # end if
+        var_list.append(var.strip())
+        return [var for var in var_list if var]
 
     @classmethod
     def parse_attr_specs(cls, propstring, context):
@@ -336,9 +348,9 @@ class FtypeCharacter(Ftype):
     """
 
     char_re = re.compile(r"(?i)(character)\s*(\([A-Za-z0-9,=*:\s\'\"()]+\))?")
-    chartrail_re = re.compile(r"\s*[,:]|\s+[A-Z]")
+    chartrail_re = re.compile(r"(?i)\s*[,:]|\s+[A-Z]")
     oldchar_re = re.compile(r"(?i)(character)\s*(\*)\s*([0-9]+\s*)")
-    oldchartrail_re = re.compile(r"\s*[,]|\s+[A-Z]")
+    oldchartrail_re = re.compile(r"(?i)\s*[,:]|\s+[A-Z]")
     len_token_re = re.compile(r"(?i)([:]|[*]|[0-9]+|[A-Z][A-Z0-9_]*)$")
 
     @classmethod
@@ -581,7 +593,7 @@ def ftype_factory(line, context):
     if ppos >= 0:
         if 0 <= cpos < ppos:
             # Whatever parentheses there are, they are not part of type
-            line = line[0:cpos]
+            line = line[0:cpos+1]
         else:
             # Find matching right parenthesis
             depth = 1
@@ -598,7 +610,7 @@ def ftype_factory(line, context):
             line = line[0:pepos+1]
         # end if
     elif cpos >= 0:
-        line = line[0:cpos]
+        line = line[0:cpos+1]
     # end if
     tmatch = Ftype.type_match(line)
     if tmatch is None:
@@ -710,9 +722,19 @@ def parse_fortran_var_decl(line, source, run_env):
     context = source.context
     sline = line.strip()
     # Strip comments first
-    if '!' in sline:
-        sline = sline[0:sline.index('!')].rstrip()
-    # end if
+    quote = None # Character context
+    for index, char in enumerate(sline):
+        if quote is not None:
+            if char == quote:
+                quote = None
+            # end if
+        elif char in "'\"":
+            quote = char
+        elif char == '!':
+            sline = sline[0:index].rstrip()
+            break
+        # end if
+    # end for
     tobject = ftype_factory(sline, context)
     newvars = list()
     if tobject is not None:
@@ -721,7 +743,7 @@ def parse_fortran_var_decl(line, source, run_env):
         intent = None
         dimensions = None
         if '::' in varprops:
-            elements = varprops.split('::')
+            elements = varprops.split('::', 1)
             varlist = elements[1].strip()
             varprops = Ftype.parse_attr_specs(elements[0].strip(), context)
             for prop in varprops:
@@ -758,7 +780,7 @@ def parse_fortran_var_decl(line, source, run_env):
             prop_dict = {}
             if '=' in var:
                 # We do not care about initializers
-                var = var[0:var.rindex('=')].rstrip()
+                var = var[0:var.index('=')].rstrip()
             # end if
             # Scan <var> and gather variable pieces
             inchar = None # Character context
-- 
2.43.0


From 1967330a7e4ac0c4f5317a998794f7ec4d26aa78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:58 +0000
Subject: [PATCH 40/89] fix: Compare Fortran names without regard to case

---
 scripts/parse_tools/parse_checkers.py | 3 ++-
 scripts/parse_tools/parse_source.py   | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/scripts/parse_tools/parse_checkers.py b/scripts/parse_tools/parse_checkers.py
index e900dcb..6a3b378 100755
--- a/scripts/parse_tools/parse_checkers.py
+++ b/scripts/parse_tools/parse_checkers.py
@@ -1064,7 +1064,8 @@ def registered_fortran_ddt_names():
 ########################################################################
 
 def registered_fortran_ddt_name(name):
-    if name in _REGISTERED_FORTRAN_DDT_NAMES:
+    # Fortran names are case insensitive
+    if name.lower() in [x.lower() for x in _REGISTERED_FORTRAN_DDT_NAMES]:
         return name
     else:
         return None
diff --git a/scripts/parse_tools/parse_source.py b/scripts/parse_tools/parse_source.py
index 2ed0e5b..50dc8cb 100644
--- a/scripts/parse_tools/parse_source.py
+++ b/scripts/parse_tools/parse_source.py
@@ -323,7 +323,7 @@ class ParseContext():
                                         self)
             # End if
             if (region_name is not None) and (curr_name is not None):
-                if region_name != curr_name:
+                if region_name.lower() != curr_name.lower():
                     emsg = "Trying to exit {} {} while currently in {} {}"
                     raise ParseContextError(emsg.format(region_type,
                                                         region_name,
-- 
2.43.0


From 6ce458c6df23494d38f4ea8ded97c9ee181c2340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:58 +0000
Subject: [PATCH 41/89] fix: Read continued lines, statements on one line and
 nested program units in Fortran files correctly

---
 scripts/fortran_tools/parse_fortran_file.py | 220 ++++++++++++++------
 1 file changed, 151 insertions(+), 69 deletions(-)

diff --git a/scripts/fortran_tools/parse_fortran_file.py b/scripts/fortran_tools/parse_fortran_file.py
index 4aa21d1..d10a6f6 100644
--- a/scripts/fortran_tools/parse_fortran_file.py
+++ b/scripts/fortran_tools/parse_fortran_file.py
@@ -31,22 +31,32 @@ from metavar import VarDictionary
 
 _COMMENT_RE = re.compile(r"!.*$")
 _FIXED_COMMENT_RE = re.compile(r"(?i)([C*]|(?:[ ]{0,4}!))")
-_PROGRAM_RE = re.compile(r"(?i)\s*program\s+"+FORTRAN_ID)
-_ENDPROGRAM_RE = re.compile(r"(?i)\s*end\s*program\s+"+FORTRAN_ID+r"?")
-_MODULE_RE = re.compile(r"(?i)\s*module\s+"+FORTRAN_ID)
-_ENDMODULE_RE = re.compile(r"(?i)\s*end\s*module\s+"+FORTRAN_ID+r"?")
-_CONTAINS_RE = re.compile(r"(?i)\s*contains")
+_PROGRAM_RE = re.compile(r"(?i)\s*program\s+"+FORTRAN_ID+r"\s*$")
+_ENDPROGRAM_RE = re.compile(r"(?i)\s*end\s*program(?:\s+"+FORTRAN_ID+r")?\s*$")
+_MODULE_RE = re.compile(r"(?i)\s*module\s+"+FORTRAN_ID+r"\s*$")
+_ENDMODULE_RE = re.compile(r"(?i)\s*end\s*module(?:\s+"+FORTRAN_ID+r")?\s*$")
+_CONTAINS_RE = re.compile(r"(?i)\s*contains\s*$")
 _CONTINUE_RE = re.compile(r"(?i)&\s*(!.*)?$")
 _FIXED_CONTINUE_RE = re.compile(r"(?i)     [^0 ]")
+_FIXED_INITIAL_RE = re.compile(r"[ 0-9]{5}0")
 _BLANK_RE = re.compile(r"\s+")
 _ARG_TABLE_START_RE = re.compile(r"(?i)\s*![!>]\s*(?:\\section)?\s*arg_table_"+FORTRAN_ID)
-_PREFIX_SPECS = [r"(?:recursive)", r"(?:pure)", r"(?:elemental)"]
-_PREFIX_SPEC = r"(?:{})?\s*".format('|'.join(_PREFIX_SPECS))
-_SUBNAME_SPEC = r"subroutine\s*"
+_PREFIX_SPECS = [r"recursive", r"non_recursive", r"pure", r"impure",
+                 r"elemental", r"module"]
+_PREFIX_SPEC = r"(?:(?:{})\s+)*".format('|'.join(_PREFIX_SPECS))
+_SUBNAME_SPEC = r"subroutine\s+"
 _ARGLIST_SPEC = r"\s*(?:[(]\s*([^)]*)[)])?"
 _SUBROUTINE_SPEC = r"(?i)\s*"+_PREFIX_SPEC+_SUBNAME_SPEC+FORTRAN_ID+_ARGLIST_SPEC
 _SUBROUTINE_RE = re.compile(_SUBROUTINE_SPEC)
-_END_SUBROUTINE_RE = re.compile(r"(?i)\s*end\s*"+_SUBNAME_SPEC+FORTRAN_ID+r"?")
+_TYPE_SPECS = [r"integer", r"real", r"logical", r"complex", r"character",
+               r"double\s*precision", r"type", r"class"]
+_TYPE_SPEC = r"(?:{})\s*(?:[*]\s*[0-9]+|[(][^'\"]*?[)])?".format('|'.join(_TYPE_SPECS))
+_FUNCTION_RE = re.compile(r"(?i)\s*"+_PREFIX_SPEC+r"(?:"+_TYPE_SPEC+r"\s*)?"+
+                          _PREFIX_SPEC+r"function\s+"+FORTRAN_ID+r"\s*[(]")
+_END_SUBPROGRAM_RE = re.compile(r"(?i)\s*end\s*(?:subroutine|function)\b")
+_END_RE = re.compile(r"(?i)\s*end\s*$")
+_INTERFACE_RE = re.compile(r"(?i)\s*(?:abstract\s+)?interface(?:\s+[A-Z].*)?$")
+_END_INTERFACE_RE = re.compile(r"(?i)\s*end\s*interface\b")
 _USE_RE = re.compile(r"(?i)\s*use\s(?:,\s*intrinsic\s*::)?\s*only\s*:([^!]+)")
 _END_TYPE_RE = re.compile(r"(?i)\s*end\s*type(?:\s+"+FORTRAN_ID+r")?")
 _INTENT_STMT_RE = re.compile(r"(?i),\s*intent\s*[(]")
@@ -96,7 +106,7 @@ def line_statements(line):
             ind_end = line_len - 1
         elif line[ind_end] == ';':
             # The whole reason for this routine, the statement separator
-            if ind_end > ind_start:
+            if line[ind_start:ind_end].strip():
                 statements.append(line[ind_start:ind_end])
             # End if
             ind_start = ind_end + 1
@@ -105,7 +115,7 @@ def line_statements(line):
         ind_end = ind_end + 1
     # End while
     # Cleanup
-    if ind_end > ind_start:
+    if line[ind_start:ind_end].strip():
         statements.append(line[ind_start:ind_end])
     # End if
     return statements
@@ -370,16 +380,27 @@ def read_file(filename, preproc_defs=None, logger=None):
     in_dchar = False # Double quote character context
     prev_line = None
     prev_line_num = -1
+    prev_len = 72 # Length of a fixed form statement before its last line ended
     curr_line, curr_line_num = pobj.curr_line()
     while curr_line is not None:
         # Skip empty lines and comment-only lines
+        if fixed_form and (_FIXED_COMMENT_RE.match(curr_line) is None):
+            # Statement text ends at column 72
+            curr_line = curr_line[0:72].rstrip()
+            if _FIXED_INITIAL_RE.match(curr_line) is not None:
+                # A zero in column 6 is the same as a blank
+                curr_line = curr_line[0:5] + ' ' + curr_line[6:]
+            # End if
+            pobj.write_line(curr_line_num, curr_line)
+        # End if
         skip_line = False
         if len(curr_line.strip()) == 0:
             skip_line = True
         elif (fixed_form and
               (_FIXED_COMMENT_RE.match(curr_line) is not None)):
             skip_line = True
-        elif curr_line.lstrip()[0] == '!':
+        elif ((curr_line.lstrip()[0] == '!') and
+              not (fixed_form and _FIXED_CONTINUE_RE.match(curr_line))):
             skip_line = True
         # End if
         if skip_line:
@@ -402,42 +423,55 @@ def read_file(filename, preproc_defs=None, logger=None):
             # End if
         # End if
         # scan the line for properties
+        in_char = in_schar or in_dchar # Context at the start of this line
         if fixed_form:
             res = scan_fixed_line(curr_line, in_schar, in_dchar, pobj)
             cont_in_col, in_schar, in_dchar, comment_col = res
             continue_col = cont_in_col # No warning in fixed form
             cont_out_col = -1
-            if (comment_col < 0) and (continue_col < 0):
+            if continue_col < 0:
                 # Real statement, grab the line # in case is continued
                 prev_line_num = curr_line_num
                 prev_line = None
+                prev_len = 72
             # End if
         else:
             res = scan_free_line(curr_line, (continue_col >= 0),
                                  in_schar, in_dchar, pobj)
             cont_in_col, cont_out_col, in_schar, in_dchar, comment_col = res
         # End if
+        if comment_col >= 0:
+            # Remove the comment after a statement
+            curr_line = curr_line[0:comment_col].rstrip()
+            pobj.write_line(curr_line_num, curr_line)
+        # End if
         # If in a continuation context, move this line to previous
         if continue_col >= 0:
             if fixed_form and (prev_line is None):
-                prev_line = pobj.peek_line(prev_line_num)[0:72]
+                prev_line = pobj.peek_line(prev_line_num)
             # End if
             if prev_line is None:
                 raise ParseInternalError("No prev_line to continue",
                                          context=pobj)
             # End if
-            sindex = max(cont_in_col+1, 0)
             if fixed_form:
-                sindex = 6
-                eindex = 72
-            elif cont_out_col > 0:
-                eindex = cont_out_col
+                if in_char:
+                    # Blanks up to column 72 are part of the character constant
+                    prev_line = prev_line.ljust(prev_len)
+                # End if
+                prev_line = prev_line + curr_line[6:]
+                prev_len = len(prev_line) + 72 - len(curr_line)
             else:
-                eindex = len(curr_line)
-            # End if
-            prev_line = prev_line + curr_line[sindex:eindex]
-            if fixed_form:
-                prev_line = prev_line.rstrip()
+                if (cont_in_col < 0) and (not in_char):
+                    # A lexical token cannot continue without an ampersand
+                    prev_line = prev_line + ' '
+                # End if
+                if cont_out_col >= 0:
+                    eindex = cont_out_col
+                else:
+                    eindex = len(curr_line)
+                # End if
+                prev_line = prev_line + curr_line[cont_in_col+1:eindex]
             # End if
             # Rewrite the file's lines
             pobj.write_line(prev_line_num, prev_line)
@@ -452,9 +486,6 @@ def read_file(filename, preproc_defs=None, logger=None):
         if (continue_col >= 0) and (prev_line is None):
             # We need to set up prev_line as it is continued
             prev_line = curr_line[0:continue_col]
-            if not (in_schar or in_dchar):
-                prev_line = prev_line.rstrip()
-            # End if
             prev_line_num = curr_line_num
         # End if
         curr_line, curr_line_num = pobj.next_line()
@@ -483,6 +514,31 @@ def is_dummy_argument_statement(statement):
 
 ########################################################################
 
+def subprogram_nesting(statement):
+    """Return the change in subprogram nesting level caused by <statement>
+    >>> subprogram_nesting("pure subroutine foo(a, b)")
+    1
+    >>> subprogram_nesting("real(kind_phys) function bar(x) result(y)")
+    1
+    >>> subprogram_nesting("print *, 'the function bar(x)'")
+    0
+    >>> subprogram_nesting("end subroutine foo")
+    -1
+    >>> subprogram_nesting("END")
+    -1
+    """
+    if ((_END_SUBPROGRAM_RE.match(statement) is not None) or
+        (_END_RE.match(statement) is not None)):
+        return -1
+    # End if
+    if ((_SUBROUTINE_RE.match(statement) is not None) or
+        (_FUNCTION_RE.match(statement) is not None)):
+        return 1
+    # End if
+    return 0
+
+########################################################################
+
 def is_comment_statement(statement):
     """Return True iff <statement> is a Fortran comment"""
     return statement.lstrip()[0] == '!'
@@ -509,6 +565,7 @@ def parse_type_def(statements, type_def, mod_name, pobj, run_env):
                                         table_type_in='ddt',
                                         module=mod_name, var_dict=var_dict)
                 inspec = False
+                break
             elif is_contains_statement(statement, inspec):
                 seen_contains = True
             elif not seen_contains:
@@ -542,6 +599,7 @@ def parse_preamble_data(statements, pobj, spec_name, endmatch, run_env):
     var_dict = VarDictionary(spec_name, run_env)
     psrc = ParseSource(spec_name, 'MODULE', pobj)
     active_table = None
+    in_interface = False
     if run_env.logger is not None:
         ctx = context_string(pobj, nodir=True)
         msg = "Parsing preamble variables of {}{}"
@@ -556,8 +614,14 @@ def parse_preamble_data(statements, pobj, spec_name, endmatch, run_env):
             type_def = fortran_type_definition(statement)
             if asmatch is not None:
                 active_table = asmatch.group(1)
-            elif (pmatch is not None) or is_contains_statement(statement,
-                                                               inspec):
+            elif in_interface:
+                # Skip the interface bodies
+                in_interface = _END_INTERFACE_RE.match(statement) is None
+            elif _INTERFACE_RE.match(statement) is not None:
+                in_interface = True
+            elif ((pmatch is not None) or
+                  (_END_RE.match(statement) is not None) or
+                  is_contains_statement(statement, inspec)):
                 # We are done with the specification
                 inspec = False
                 # Put statement back so caller knows where we are
@@ -596,8 +660,8 @@ def parse_preamble_data(statements, pobj, spec_name, endmatch, run_env):
                 else:
                     # We found a type definition but it is not one with
                     #   metadata. Just parse it and throw away what is found.
-                    _ = parse_type_def(statements, type_def,
-                                       spec_name, pobj, run_env)
+                    statements, _ = parse_type_def(statements, type_def,
+                                                   spec_name, pobj, run_env)
                 # end if
             elif active_table is not None:
                 # We should have a variable definition to add
@@ -628,7 +692,7 @@ def parse_scheme_metadata(statements, pobj, spec_name, table_name, run_env):
     # Find the subroutine line, should be first executable statement
     inpreamble = False
     insub = True
-    seen_contains = False
+    depth = 0 # Nesting level of subprograms
     if run_env.verbose:
         ctx = context_string(pobj, nodir=True)
         msg = "Parsing specification of {}{}"
@@ -640,11 +704,9 @@ def parse_scheme_metadata(statements, pobj, spec_name, table_name, run_env):
         while statements:
             statement = statements.pop(0)
             smatch = _SUBROUTINE_RE.match(statement)
-            esmatch = _END_SUBROUTINE_RE.match(statement)
             pmatch = _ENDMODULE_RE.match(statement)
             asmatch = _ARG_TABLE_START_RE.match(statement)
-            seen_contains = seen_contains or is_contains_statement(statement, insub)
-            if seen_contains:
+            if is_contains_statement(statement, insub):
                 inpreamble = False
             # End if
             if asmatch is not None:
@@ -654,16 +716,19 @@ def parse_scheme_metadata(statements, pobj, spec_name, table_name, run_env):
                 insub = False
                 break
             # End if
-            if pmatch is not None:
+            if ((pmatch is not None) or
+                ((depth == 0) and (_END_RE.match(statement) is not None))):
                 # We have run off the end of the module, hope that is okay
                 pobj.leave_region('MODULE', region_name=spec_name)
                 insub = False
                 break
             # End if
-            if smatch is not None and not seen_contains:
-                scheme_name = smatch.group(1)
-                inpreamble = scheme_name.lower() == table_name.lower()
+            nesting = subprogram_nesting(statement)
+            depth += nesting
+            if (smatch is not None) and (depth == 1):
+                inpreamble = smatch.group(1).lower() == table_name.lower()
                 if inpreamble:
+                    scheme_name = smatch.group(1)
                     if smatch.group(2) is not None:
                         smstr = smatch.group(2).strip()
                         if len(smstr) > 0:
@@ -692,16 +757,18 @@ def parse_scheme_metadata(statements, pobj, spec_name, table_name, run_env):
                     # End for
                     psrc = ParseSource(scheme_name, 'scheme', pobj)
                 # End if
-            elif inpreamble or seen_contains:
+            elif (nesting < 0) and (depth == 0):
+                # End of a module subprogram
+                inpreamble = False
+                insub = vdict is None
+                if not insub:
+                    break
+                # End if
+            elif inpreamble and (depth == 1):
                 # Process a preamble statement (use or argument declaration)
-                if esmatch is not None:
-                    inpreamble = False
-                    seen_contains = False
-                    insub = False
-                elif (inpreamble and
-                      ((not is_comment_statement(statement)) and
-                       (not parse_use_statement(statement, run_env)) and
-                       is_dummy_argument_statement(statement))):
+                if ((not is_comment_statement(statement)) and
+                    (not parse_use_statement(statement, run_env.logger)) and
+                    is_dummy_argument_statement(statement)):
                     dvars = parse_fortran_var_decl(statement, psrc, run_env)
                     for var in dvars:
                         lname = var.get_prop_value('local_name').lower()
@@ -728,7 +795,7 @@ def parse_scheme_metadata(statements, pobj, spec_name, table_name, run_env):
     missing = list()
     if vdict is None:
         errmsg = 'Subroutine, {}, not found{}'
-        raise CCPPError(errmsg.format(scheme_name, ctx))
+        raise CCPPError(errmsg.format(table_name, ctx))
     # End if
     for lname in vdict.keys():
         if vdict[lname] is None:
@@ -792,6 +859,7 @@ def parse_specification(pobj, statements, run_env, mod_name=None,
     # End if
 
     inspec = True
+    in_interface = False
     mtables = list()
     while inspec and (statements is not None):
         while len(statements) > 0:
@@ -800,8 +868,16 @@ def parse_specification(pobj, statements, run_env, mod_name=None,
             pmatch = endmatch.match(statement)
             asmatch = _ARG_TABLE_START_RE.match(statement)
             type_def = fortran_type_definition(statement)
-            if pmatch is not None:
+            if in_interface:
+                # Skip the interface bodies
+                in_interface = _END_INTERFACE_RE.match(statement) is None
+            elif _INTERFACE_RE.match(statement) is not None:
+                in_interface = True
+            elif ((pmatch is not None) or
+                  (_END_RE.match(statement) is not None)):
                 # We never found a contains statement
+                # Put statement back so caller knows where we are
+                statements.insert(0, statement)
                 inspec = False
                 break
             elif asmatch is not None:
@@ -831,8 +907,8 @@ def parse_specification(pobj, statements, run_env, mod_name=None,
                 # Just parse it and throw away what is found.
                 # Put statement back so caller knows where we are
                 statements.insert(0, statement)
-                _ = parse_type_def(statements, type_def,
-                                   spec_name, pobj, run_env)
+                statements, _ = parse_type_def(statements, type_def,
+                                               spec_name, pobj, run_env)
             elif is_contains_statement(statement, inmod):
                 inspec = False
                 break
@@ -868,16 +944,20 @@ def parse_program(pobj, statements, run_env):
     # Just read until end
     statements = read_statements(pobj, statements)
     inprogram = True
+    depth = 0 # Nesting level of internal subprograms
     while inprogram and (statements is not None):
         while len(statements) > 0:
             statement = statements.pop(0)
             # End program
             pmatch = _ENDPROGRAM_RE.match(statement)
-            if pmatch is not None:
-                prog_name = pmatch.group(1)
+            if ((pmatch is not None) or
+                ((depth == 0) and (_END_RE.match(statement) is not None))):
+                prog_name = pmatch.group(1) if pmatch is not None else None
                 pobj.leave_region('PROGRAM', region_name=prog_name)
                 inprogram = False
+                break
             # End if
+            depth += subprogram_nesting(statement)
         # End while
         if inprogram and (len(statements) == 0):
             statements = read_statements(pobj)
@@ -910,8 +990,7 @@ def parse_module(pobj, statements, run_env):
     inmodule = pobj.in_region('MODULE', region_name=mod_name)
     active_table = None
     additional_subroutines = []
-    seen_contains = False
-    insub = False
+    depth = 0 # Nesting level of subprograms
     while inmodule and (statements is not None):
         while statements:
             statement = statements.pop(0)
@@ -919,16 +998,18 @@ def parse_module(pobj, statements, run_env):
             pmatch = _ENDMODULE_RE.match(statement)
             asmatch = _ARG_TABLE_START_RE.match(statement)
             smatch = _SUBROUTINE_RE.match(statement)
-            esmatch = _END_SUBROUTINE_RE.match(statement)
-            seen_contains = seen_contains or is_contains_statement(statement, insub)
             if asmatch is not None:
                 active_table = asmatch.group(1)
-            elif pmatch is not None:
-                mod_name = pmatch.group(1)
+                depth = 0
+            elif ((pmatch is not None) or
+                  ((depth == 0) and (_END_RE.match(statement) is not None))):
+                mod_name = pmatch.group(1) if pmatch is not None else None
                 pobj.leave_region('MODULE', region_name=mod_name)
                 inmodule = False
                 break
             elif active_table is not None:
+                # Put statement back, it may be the subroutine statement
+                statements.insert(0, statement)
                 statements, mheader = parse_scheme_metadata(statements, pobj,
                                                             mod_name,
                                                             active_table,
@@ -950,14 +1031,12 @@ def parse_module(pobj, statements, run_env):
                 active_table = None
                 inmodule = pobj.in_region('MODULE', region_name=mod_name)
                 break
-            elif smatch is not None and not seen_contains:
-                routine_name = smatch.group(1).strip()
-                additional_subroutines.append(routine_name)
-                insub = True
-            elif esmatch is not None and not seen_contains:
-                insub = False
-            elif esmatch is not None:
-                seen_contains = False
+            else:
+                if (smatch is not None) and (depth == 0):
+                    routine_name = smatch.group(1).strip()
+                    additional_subroutines.append(routine_name)
+                # End if
+                depth += subprogram_nesting(statement)
             # End if
         # End while
         if inmodule and (statements is not None) and (len(statements) == 0):
@@ -971,6 +1050,7 @@ def parse_module(pobj, statements, run_env):
 def parse_fortran_file(filename, run_env):
     """Parse a Fortran file and return all metadata tables found."""
     mtables = list()
+    additional_routines = list()
     pobj = read_file(filename, preproc_defs=run_env.preproc_defs,
                      logger=run_env.logger)
     pobj.reset_pos()
@@ -989,8 +1069,10 @@ def parse_fortran_file(filename, run_env):
         elif _MODULE_RE.match(statement) is not None:
             # push statement back so parse_module can use it
             statements.insert(0, statement)
-            statements, ptables, additional_routines = parse_module(pobj, statements, run_env)
+            statements, ptables, routines = parse_module(pobj, statements,
+                                                         run_env)
             mtables.extend(ptables)
+            additional_routines.extend(routines)
         # End if
         if (statements is not None) and (len(statements) == 0):
             statements = read_statements(pobj)
-- 
2.43.0


From 5e767e82688a5a74ab7f04f11b3de74a6bb81c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:06 +0000
Subject: [PATCH 42/89] fix: Pass the dimensions of transformed and suite-owned
 variables to the group which declares them

---
 scripts/suite_objects.py | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/scripts/suite_objects.py b/scripts/suite_objects.py
index fb47f05..f7f3420 100755
--- a/scripts/suite_objects.py
+++ b/scripts/suite_objects.py
@@ -1180,10 +1180,25 @@ class Scheme(SuiteObject):
                     gvar = None
                 # end if
             if gvar is None:
-                my_group.add_call_list_variable(var)
+                my_group.add_call_list_variable(var, gen_unique=True)
             # end if
         # end if
 
+    def add_group_dimensions(self, dims):
+        """Make sure that the variables which define <dims> can be used by
+        our group (i.e., that they are in the group's call list unless they
+        are owned by the group or the suite)."""
+        for dim in dims:
+            for stdname in dim.split(':'):
+                if stdname not in CCPP_CONSTANT_VARS:
+                    dvar = self.find_variable(standard_name=stdname)
+                    if dvar is not None:
+                        self.update_group_call_list_variable(dvar)
+                    # end if
+                # end if
+            # end for
+        # end for
+
     def is_local_variable(self, var):
         """Return None as we never consider <var> to be in our local
         dictionary.
@@ -1236,6 +1251,12 @@ class Scheme(SuiteObject):
                 if not self.has_vertical_dim:
                     self.__has_vertical_dimension = vert_dim is not None
                 # end if
+                # The declaration of a framework-owned variable is passed
+                # with its dimensions, make sure they are available.
+                if (dict_var is not None and
+                    dict_var.source.ptype in _API_LOCAL_VAR_TYPES):
+                    self.add_group_dimensions(dict_var.get_dimensions())
+                # end if
                 # We have a match, make sure var is in call list
                 if new_dims == vdims:
                     self.add_call_list_variable(var, exists_ok=True)
@@ -1304,6 +1325,7 @@ class Scheme(SuiteObject):
             if compat_obj is not None and (compat_obj.has_vert_transforms or
                                            compat_obj.has_unit_transforms or
                                            compat_obj.has_kind_transforms):
+                self.add_group_dimensions(var.get_dimensions())
                 self.add_var_transform(var, compat_obj, vert_dim)
             # end if
 
-- 
2.43.0


From d7964782b2a4625b80f532a03f7dc3baa59cefb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:06 +0000
Subject: [PATCH 43/89] fix: Compare every metadata variable with its Fortran
 declaration, including dimensions and the first argument

---
 scripts/ccpp_capgen.py    | 91 ++++++++++++++++++++++++++-------------
 scripts/metadata_table.py |  2 +-
 2 files changed, 63 insertions(+), 30 deletions(-)

diff --git a/scripts/ccpp_capgen.py b/scripts/ccpp_capgen.py
index 8d7f4a3..3339231 100755
--- a/scripts/ccpp_capgen.py
+++ b/scripts/ccpp_capgen.py
@@ -27,6 +27,7 @@ from framework_env import parse_command_line
 from host_cap import write_host_cap
 from host_model import HostModel
 from metadata_table import parse_metadata_file, SCHEME_HEADER_TYPE
+from metavar import CCPP_CONSTANT_VARS
 from parse_tools import init_log, set_log_level, context_string
 from parse_tools import register_fortran_ddt_name
 from parse_tools import CCPPError, ParseInternalError
@@ -217,6 +218,48 @@ def var_comp(prop_name, mvar, fvar, title, case_sensitive=False):
     # end if
     return errors
 
+###############################################################################
+def is_constant_dim(dim_part):
+###############################################################################
+    """Return True iff <dim_part> is an integer or a CCPP constant"""
+    return ((dim_part in CCPP_CONSTANT_VARS) or
+            (re.match(r"[-+]?\d+$", dim_part) is not None))
+
+###############################################################################
+def dim_comp(mdim, fdim):
+###############################################################################
+    """Return True iff <fdim>, one dimension of a Fortran variable, can describe
+    <mdim>, the same dimension of a metadata variable.
+    Both dimensions are given in terms of standard names.
+    >>> dim_comp("ccpp_constant_one:foo", "ccpp_constant_one:foo")
+    True
+    >>> dim_comp("ccpp_constant_one:foo", ":")
+    True
+    >>> dim_comp("foo_begin:foo_end", "foo_begin:")
+    True
+    >>> dim_comp("ccpp_constant_one:foo", "ccpp_constant_one:10")
+    True
+    >>> dim_comp("ccpp_constant_one:5", "ccpp_constant_one:10")
+    False
+    >>> dim_comp("ccpp_constant_one:foo", "ccpp_constant_one:bar")
+    False
+    """
+    mparts = [x.strip() for x in mdim.split(':')]
+    fparts = [x.strip() for x in fdim.split(':')]
+    if len(mparts) != len(fparts):
+        return False
+    # end if
+    for mpart, fpart in zip(mparts, fparts):
+        # An omitted bound is okay for Fortran side
+        if fpart and (fpart != mpart):
+            # A number is only comparable to another number
+            if not is_constant_dim(fpart) or is_constant_dim(mpart):
+                return False
+            # end if
+        # end if
+    # end for
+    return True
+
 ###############################################################################
 def dims_comp(mheader, mvar, fvar, title, logger, case_sensitive=False):
 ###############################################################################
@@ -235,20 +278,12 @@ def dims_comp(mheader, mvar, fvar, title, logger, case_sensitive=False):
     if comp:
         # Now, compare the dims
         for dim_ind, mdim in enumerate(mdims):
-            if ':' in mdim:
-                mdim = ':'.join([x.strip() for x in mdim.split(':')])
-            # end if
-            fdim = fdims[dim_ind].strip()
-            if ':' in fdim:
-                fdim = ':'.join([x.strip() for x in fdim.split(':')])
-            # end if
+            fdim = fdims[dim_ind]
             if not case_sensitive:
                 mdim = mdim.lower()
                 fdim = fdim.lower()
             # end if
-            # Naked colon is okay for Fortran side
-            comp = fdim in (':', fdim)
-            if not comp:
+            if not dim_comp(mdim, fdim):
                 errmsg = 'Error: dim {} mismatch ({} != {}) in {}/{}{}'
                 stdname = mvar.get_prop_value('standard_name')
                 ctx = context_string(mvar.context)
@@ -335,7 +370,7 @@ def compare_fheader_to_mheader(meta_header, fort_header, logger):
             # missing from fortran declaration.
             # first check: if metadata says the variable is optional, does the fortran match?
             mopt  = mvar.get_prop_value('optional')
-            if find and mopt:
+            if (fvar is not None) and mopt:
                 fopt = fvar.get_prop_value('optional')
                 if (not fopt):
                     errmsg = f'Missing "optional" attribute in fortran declaration for variable {mname}, ' \
@@ -352,27 +387,22 @@ def compare_fheader_to_mheader(meta_header, fort_header, logger):
                     errors_found = add_error(errors_found, errmsg)
                 # end if
             # end if
-            if mind >= flen:
-                if arrayref:
-                    # Array reference, variable not in Fortran table
-                    pass
-                elif fvar is None:
-                    errmsg = 'No Fortran variable for {} in {}'
-                    errors_found = add_error(errors_found,
-                                             errmsg.format(lname, title))
-                # end if (no else, we already reported an out-of-place error
-                # Do not break to collect all missing variables
-                continue
-            # end if
             # At this point, we should have a Fortran variable
             if (not arrayref) and (fvar is None):
-                errmsg = 'Variable mismatch in {}, no Fortran variable {}.'
-                errors_found = add_error(errors_found, errmsg.format(title,
-                                                                     lname))
+                # Do not break to collect all missing variables
+                if mind >= flen:
+                    errmsg = 'No Fortran variable for {} in {}'
+                    errmsg = errmsg.format(lname, title)
+                else:
+                    errmsg = 'Variable mismatch in {}, no Fortran variable {}.'
+                    errmsg = errmsg.format(title, lname)
+                # end if
+                errors_found = add_error(errors_found, errmsg)
                 continue
             # end if
-            # Check order dependence
-            if fht in _ORDERED_TABLE_TYPES:
+            # Check order dependence (if there are not enough Fortran variables
+            # we already reported that)
+            if (fht in _ORDERED_TABLE_TYPES) and (mind < flen):
                 if find != mind:
                     errmsg = 'Out of order argument, {} in {}'
                     errors_found = add_error(errors_found,
@@ -458,7 +488,10 @@ def check_fortran_against_metadata(meta_headers, fort_headers,
     errors_found = ''
     for mheader in header_dict:
         fheader = header_dict[mheader]
-        errors_found += compare_fheader_to_mheader(mheader, fheader, logger)
+        errs = compare_fheader_to_mheader(mheader, fheader, logger)
+        if errs:
+            errors_found = add_error(errors_found, errs)
+        # end if
     # end for
     if errors_found:
         num_errors = len(re.findall(r'\n', errors_found)) + 1
diff --git a/scripts/metadata_table.py b/scripts/metadata_table.py
index dad3d7b..e9d5b96 100755
--- a/scripts/metadata_table.py
+++ b/scripts/metadata_table.py
@@ -1143,7 +1143,7 @@ class MetadataSection(ParseSource):
                         errmsg += context_string(context)
                         if logger is not None:
                             errmsg = "ERROR: " + errmsg
-                            logger.error(errmsg.format(item, std, ctx))
+                            logger.error(errmsg)
                             dname = unique_standard_name()
                         else:
                             raise CCPPError(errmsg) from verr
-- 
2.43.0


From 34ea3d6e1a8cfbc209a91a21a6e6943f995d3768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:46 +0000
Subject: [PATCH 44/89] fix: Match entry point names without case, explicit
 lower bounds and missing kinds when comparing metadata with Fortran

---
 scripts/ccpp_capgen.py | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/scripts/ccpp_capgen.py b/scripts/ccpp_capgen.py
index 3339231..b69c7a9 100755
--- a/scripts/ccpp_capgen.py
+++ b/scripts/ccpp_capgen.py
@@ -210,6 +210,14 @@ def var_comp(prop_name, mvar, fvar, title, case_sensitive=False):
         # end if
     # end if
     comp = mprop == fprop
+    if comp and (prop_name == 'kind'):
+        # A kind in the metadata must be in the Fortran declaration as well
+        comp = (('kind' in dict(fvar.var_properties())) or
+                ('kind' not in dict(mvar.var_properties())))
+        if not comp:
+            fprop = ''
+        # end if
+    # end if
     if not comp:
         errmsg = '{} mismatch ({} != {}) in {}{}'
         ctx = context_string(mvar.context)
@@ -218,6 +226,13 @@ def var_comp(prop_name, mvar, fvar, title, case_sensitive=False):
     # end if
     return errors
 
+###############################################################################
+def dim_stdname(dim_part):
+###############################################################################
+    "Return the standard name for <dim_part> if it is a CCPP constant integer"
+    cvar = CCPP_CONSTANT_VARS.find_local_name(dim_part)
+    return dim_part if cvar is None else cvar.get_prop_value('standard_name')
+
 ###############################################################################
 def is_constant_dim(dim_part):
 ###############################################################################
@@ -244,8 +259,8 @@ def dim_comp(mdim, fdim):
     >>> dim_comp("ccpp_constant_one:foo", "ccpp_constant_one:bar")
     False
     """
-    mparts = [x.strip() for x in mdim.split(':')]
-    fparts = [x.strip() for x in fdim.split(':')]
+    mparts = [dim_stdname(x.strip()) for x in mdim.split(':')]
+    fparts = [dim_stdname(x.strip()) for x in fdim.split(':')]
     if len(mparts) != len(fparts):
         return False
     # end if
@@ -456,7 +471,7 @@ def check_fortran_against_metadata(meta_headers, fort_headers,
         fheader = None
         mtitle = mheader.title
         for findex in range(len(fort_headers)): #pylint: disable=consider-using-enumerate
-            if fort_headers[findex].title == mtitle:
+            if fort_headers[findex].title.lower() == mtitle.lower():
                 fheader = fort_headers.pop(findex)
                 break
             # end if
-- 
2.43.0


From 6fb644d83740ac61bdd1172690e3b2d0ea409b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:28 +0000
Subject: [PATCH 45/89] fix: Do not register a DDT without a name

---
 scripts/metadata_table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/metadata_table.py b/scripts/metadata_table.py
index e9d5b96..4fd75bd 100755
--- a/scripts/metadata_table.py
+++ b/scripts/metadata_table.py
@@ -721,7 +721,7 @@ class MetadataSection(ParseSource):
                                   skip_ddt_check=skip_ddt_check)
         # end if
         # Register this header if it is a DDT
-        if self.header_type == 'ddt':
+        if (self.header_type == 'ddt') and (self.title is not None):
             register_fortran_ddt_name(self.title)
         # end if
         # Categorize the variables
-- 
2.43.0


From 981fb422b7b9cfee16f9dd8199f472da0f6066d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:53 +0000
Subject: [PATCH 46/89] fix: Refuse schemes which disagree with the source of a
 quantity on type, rank or protection; accept literal dimensions and pass
 vertical loop extents

---
 scripts/metavar.py       |  12 +++-
 scripts/suite_objects.py | 123 +++++++++++++++++++++++++++++++++++----
 scripts/var_props.py     |   9 +--
 3 files changed, 128 insertions(+), 16 deletions(-)

diff --git a/scripts/metavar.py b/scripts/metavar.py
index 81aa5aa..acd0814 100755
--- a/scripts/metavar.py
+++ b/scripts/metavar.py
@@ -374,9 +374,10 @@ class Var:
                                    context=self.context) from cperr
         # end try
 
-    def compatible(self, other, run_env, is_tend=False):
+    def compatible(self, other, run_env, is_tend=False, check_dims=True):
         """Return a VarCompatObj object which describes the equivalence,
         compatibility, or incompatibility between <self> and <other>.
+        If <check_dims> is False, do not compare dimensions.
         """
         # We accept character(len=*) as compatible with
         # character(len=INTEGER_VALUE)
@@ -394,6 +395,10 @@ class Var:
         oloc_name = other.get_prop_value('local_name')
         otopp = other.get_prop_value('top_at_one')
         odims = other.get_dimensions()
+        if not check_dims:
+            sdims = []
+            odims = []
+        # end if
         compat = VarCompatObj(sstd_name, stype, skind, sunits, sdims, sloc_name, stopp,
                               ostd_name, otype, okind, ounits, odims, oloc_name, otopp,
                               run_env,
@@ -629,6 +634,11 @@ class Var:
                 if (not dvar) and add_dims:
                     dnames = []
                     for stdname in dstdnames:
+                        if stdname.isdigit():
+                            # A literal needs no variable
+                            dnames.append(stdname)
+                            continue
+                        # end if
                         for vdict in var_dicts:
                             dvar = vdict.find_variable(standard_name=stdname,
                                                        any_scope=False)
diff --git a/scripts/suite_objects.py b/scripts/suite_objects.py
index f7f3420..6d744d0 100755
--- a/scripts/suite_objects.py
+++ b/scripts/suite_objects.py
@@ -19,8 +19,9 @@ from parse_tools import ParseContext, ParseSource, context_string
 from parse_tools import ParseInternalError, CCPPError
 from parse_tools import init_log, set_log_to_null
 from var_props import is_horizontal_dimension, find_horizontal_dimension
-from var_props import find_vertical_dimension
+from var_props import find_vertical_dimension, is_vertical_dimension
 from var_props import VarCompatObj
+from ddt_library import VarDDT
 
 # pylint: disable=too-many-lines
 
@@ -475,8 +476,7 @@ class SuiteObject(VarDictionary):
                                           any_scope=True)
                 if dvar is None:
                     emsg = "{}: Could not find dimension {} in {}"
-                    raise ParseInternalError(emsg.format(self.name,
-                                                         vardim, stdname))
+                    raise CCPPError(emsg.format(self.name, vardim, stdname))
                 # end if
         elif self.parent is None:
             errmsg = 'No call_list found for {}'.format(newvar)
@@ -484,15 +484,11 @@ class SuiteObject(VarDictionary):
         elif pvar:
             # Check for call list incompatibility
             if pvar is not None:
-                compat, reason = pvar.compatible(newvar, self.run_env)
-                if not compat:
+                compat = pvar.compatible(newvar, self.run_env)
+                if not compat.compat:
                     emsg = 'Attempt to add incompatible variable to call list:'
                     emsg += '\n{} from {} is not compatible with {} from {}'
-                    nlreason = newvar.get_prop_value(reason)
-                    plreason = pvar.get_prop_value(reason)
-                    emsg += '\nreason = {} ({} != {})'.format(reason,
-                                                              nlreason,
-                                                              plreason)
+                    emsg += '\nreason = {}'.format(compat.incompat_reason)
                     nlname = newvar.get_prop_value('local_name')
                     plname = pvar.get_prop_value('local_name')
                     raise CCPPError(emsg.format(nlname, newvar.source.name,
@@ -893,6 +889,7 @@ class SuiteObject(VarDictionary):
             # Therefore, we have to use the declaration dimensions in the call.
             found_var = True
             new_vdims = dict_var.get_dimensions()
+            self.check_match(var, dict_var, vdims, new_vdims)
             if not (self.run_phase() or self.timestep_phase()):
                 # This variable is needed outside of a timestep
                 dict_var.adjust_persistence('run')
@@ -916,6 +913,8 @@ class SuiteObject(VarDictionary):
                 new_dict_dims = dict_dims
                 match = True
             # end if
+            # Make sure that the scheme and source agree on what this variable is
+            self.check_match(var, dict_var, vdims, dict_dims)
             # If variable is defined as "inactive" by the host, ensure that
             # this variable is declared as "optional" by the scheme. If
             # not satisfied, return error.
@@ -967,6 +966,85 @@ class SuiteObject(VarDictionary):
         # end if
         return found_var, dict_var, var_vdim, new_vdims, missing_vert, compat_obj
 
+    def check_match(self, var, dict_var, vdims, dict_dims):
+        """Raise an error if <var> (with dimensions, <vdims>) cannot use the
+        data of <dict_var> (with dimensions, <dict_dims>), even with variable
+        transformations, because its type or rank is different.
+        The dimensions of variables owned by the framework must be the same
+        except that any horizontal dimension is allowed."""
+        reason = ''
+        compat = var.compatible(dict_var, self.run_env, check_dims=False)
+        if not compat.compat:
+            reason = f"incompatible {compat.incompat_reason}"
+        elif dict_var.source.ptype in _API_LOCAL_VAR_TYPES:
+            ndims = [self.dim_key(x) for x in vdims]
+            hdims = [self.dim_key(x) for x in dict_dims]
+            # A scheme may be called for every level of a variable
+            lev_dims = [self.dim_key(x) for x in dict_dims
+                        if not is_vertical_dimension(x)]
+            if (ndims != hdims) and ((not ndims) or (ndims != lev_dims)):
+                reason = "different dimensions, ({}) and ({})"
+                reason = reason.format(', '.join(vdims), ', '.join(dict_dims))
+            # end if
+        elif (not vdims) and dict_dims:
+            reason = "different rank, 0 and {}".format(len(dict_dims))
+        # end if
+        if (not reason) and (var.get_prop_value('intent') != 'in'):
+            if self.is_protected(var.get_prop_value('standard_name')):
+                reason = "scheme modifies a protected variable"
+            # end if
+        # end if
+        if reason:
+            vname = var.get_prop_value('local_name')
+            dname = dict_var.get_prop_value('local_name')
+            stdname = var.get_prop_value('standard_name')
+            vctx = context_string(var.context)
+            dctx = context_string(dict_var.context)
+            errmsg = f"{self.name}: {vname} ({stdname}){vctx}, does not match "
+            errmsg += f"{dname}{dctx}, {reason}"
+            raise CCPPError(errmsg)
+        # end if
+
+    def is_protected(self, standard_name):
+        """Return True iff <standard_name> is a host model variable which is
+        protected (including as part of a protected variable)."""
+        host = self
+        while host.parent is not None:
+            host = host.parent
+        # end while
+        hvar = host.find_variable(standard_name=standard_name, any_scope=False)
+        protected = False
+        while (hvar is not None) and (not protected):
+            if isinstance(hvar, VarDDT):
+                protected = hvar.get_parent_prop('protected')
+                hvar = hvar.field
+            else:
+                protected = hvar.get_prop_value('protected')
+                hvar = hvar.parent
+            # end if
+        # end while
+        return protected
+
+    @staticmethod
+    def dim_key(dim):
+        """Return a form of <dim> which is the same for all horizontal
+        dimensions and for all equivalent forms of other dimensions.
+        >>> SuiteObject.dim_key("ccpp_constant_one:horizontal_loop_extent")
+        'horizontal_dimension'
+        >>> SuiteObject.dim_key("ccpp_constant_one:foo")
+        'foo'
+        >>> SuiteObject.dim_key("foo_begin:foo_end")
+        'foo_begin:foo_end'
+        """
+        if is_horizontal_dimension(dim):
+            return 'horizontal_dimension'
+        # end if
+        dparts = [x.strip() for x in dim.split(':')]
+        if (len(dparts) == 2) and (dparts[0] in ('ccpp_constant_one', '1')):
+            dparts = dparts[1:]
+        # end if
+        return ':'.join(dparts)
+
     def in_process_split(self):
         """Find out if we are in a process-split region"""
         proc_split = False
@@ -1193,8 +1271,14 @@ class Scheme(SuiteObject):
                 if stdname not in CCPP_CONSTANT_VARS:
                     dvar = self.find_variable(standard_name=stdname)
                     if dvar is not None:
-                        self.update_group_call_list_variable(dvar)
+                        dvars = [dvar]
+                    else:
+                        # An extent may be given by the limits of the loop
+                        dvars = self.find_loop_subst(stdname) or []
                     # end if
+                    for dvar in dvars:
+                        self.update_group_call_list_variable(dvar)
+                    # end for
                 # end if
             # end for
         # end for
@@ -2019,6 +2103,12 @@ class VerticalLoop(SuiteObject):
         # If not found, check the suite level
         if local_dim is None:
             local_dim = group.suite.find_variable(standard_name=dim_name)
+            if (local_dim is not None) and \
+               (not SuiteObject.is_suite_variable(local_dim)):
+                # The group needs this variable for its loop
+                group.add_call_list_variable(local_dim.clone({'intent':'in'}),
+                                             exists_ok=True)
+            # end if
         # end if
         if local_dim is None:
             emsg = 'No variable found for vertical loop dimension {}'
@@ -2319,6 +2409,13 @@ class Group(SuiteObject):
         # Look for dimensions where we have a loop substitution and replace
         # with the correct size
         if self.run_phase():
+            # Add any loop substitution not already required by a scheme
+            for dim in vdims:
+                vmatch = VarDictionary.loop_var_match(dim.split(':')[-1])
+                if is_horizontal_dimension(dim) and (vmatch is not None):
+                    self.add_variable_to_call_tree(None, vmatch=vmatch)
+                # end if
+            # end for
             hdims = [x.missing_stdname for x in self._loop_var_matches]
         else:
             # Do not do loop substitutions in full phases
@@ -2504,6 +2601,10 @@ class Group(SuiteObject):
             rdparts = list()
             dparts = dim.split(':')
             for dpart in dparts:
+                if dpart.isdigit():
+                    rdparts.append(dpart)
+                    continue
+                # end if
                 dvar = self.find_variable(standard_name=dpart, any_scope=False)
                 if dvar is None:
                     dvar = self.call_list.find_variable(standard_name=dpart,
diff --git a/scripts/var_props.py b/scripts/var_props.py
index 197dcc8..5d8438e 100755
--- a/scripts/var_props.py
+++ b/scripts/var_props.py
@@ -904,14 +904,14 @@ class VarCompatObj:
             self.__compat = False
             incompat_reason.append("standard names")
         # end if
-        if var1_type != var2_type:
+        if var1_type.lower() != var2_type.lower():
             self.__equiv = False
             self.__compat = False
             incompat_reason.append("types")
         # end if
         # Check kind argument
         if self.__compat:
-            if var1_type == 'character':
+            if var1_type.lower() == 'character':
                 # First, make sure we have supported character 'kind' args:
                 v1_kind = self.char_kind_check(var1_kind)
                 if not v1_kind:
@@ -1350,8 +1350,9 @@ class VarCompatObj:
             # Character allows both len and kind but we only support len
             kentries = [x.strip() for x in kind_str.split(',') if x.strip()]
             if len(kentries) == 1:
-                if kentries[0][0:4].lower() == 'len=':
-                    kind_ok = True
+                kentry = ''.join(kentries[0].split()).lower()
+                if kentry[0:4] == 'len=':
+                    kind_ok = kentry
                 # end if (no else, kind_ok already False)
             # end if (no else, kind_ok already False)
         # end if (no else, kind_ok already False)
-- 
2.43.0


From 41297cd17462832a9f92902c995bfe7582ea058f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:57 +0000
Subject: [PATCH 47/89] fix: Allow host metadata to name an array of a module
 and its sections

---
 scripts/metavar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/metavar.py b/scripts/metavar.py
index acd0814..7b8d179 100755
--- a/scripts/metavar.py
+++ b/scripts/metavar.py
@@ -871,7 +871,7 @@ class Var:
     @parent.setter
     def parent(self, parent_var):
         """Set this variable's parent if not already set"""
-        if self.__parent_var is not None:
+        if (self.__parent_var is not None) and (self.__parent_var is not parent_var):
             emsg = 'Attempting to set parent for {} but parent already set'
             lname = self.get_prop_value('local_name')
             raise ParseInternalError(emsg.format(lname))
-- 
2.43.0


From 993151a47b92662ac0d23be4d1bc75c96ab236e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:57 +0000
Subject: [PATCH 48/89] fix: Number the elements of the required variable lists
 correctly

---
 scripts/ccpp_suite.py | 223 ++++--------------------------------------
 1 file changed, 21 insertions(+), 202 deletions(-)

diff --git a/scripts/ccpp_suite.py b/scripts/ccpp_suite.py
index 5ecd557..0889c52 100644
--- a/scripts/ccpp_suite.py
+++ b/scripts/ccpp_suite.py
@@ -871,7 +871,6 @@ class API(VarDictionary):
         ofile.write("logical {}:: input_vars_use".format(' '*34), 2)
         ofile.write("logical {}:: output_vars_use".format(' '*34), 2)
         ofile.write("logical {}:: struct_elements_use".format(' '*34), 2)
-        ofile.write("integer {}:: num_vars".format(' '*34), 2)
         ofile.write("", 0)
         ename = self._errcode_var.get_prop_value('local_name')
         ofile.write("{} = 0".format(ename), 2)
@@ -950,210 +949,30 @@ class API(VarDictionary):
                     # end if
                 # end for
             # end for
-            # Figure out how many total variables to return and allocate
-            #   variable_list to that size
+            # Write out the variables for each combination of options
             ofile.write(oline.format(else_str, suite.name), 2)
-            ofile.write("if (input_vars_use .and. output_vars_use) then", 3)
-            have_elems = input_vars[2] or inout_vars[2] or output_vars[2]
-            if have_elems:
-                ofile.write("if (struct_elements_use) then", 4)
-                numvars = len(input_vars[0] | input_vars[2] | inout_vars[0] |
-                              inout_vars[2] | output_vars[0] | output_vars[2])
-                ofile.write("num_vars = {}".format(numvars), 5)
-                ofile.write("else", 4)
-            # end if
-            numvars = len(input_vars[0] | input_vars[1] | inout_vars[0] |
-                          inout_vars[1] | output_vars[0] | output_vars[1])
-            ofile.write("num_vars = {}".format(numvars), 5 if have_elems else 4)
-            if have_elems:
-                ofile.write("end if", 4)
-            # end if
-            ofile.write("else if (input_vars_use) then", 3)
-            have_elems = input_vars[2] or inout_vars[2]
-            if have_elems:
-                ofile.write("if (struct_elements_use) then", 4)
-                numvars = len(input_vars[0] | input_vars[2] |
-                              inout_vars[0] | inout_vars[2])
-                ofile.write("num_vars = {}".format(numvars), 5)
-                ofile.write("else", 4)
-            # end if
-            numvars = len(input_vars[0] | input_vars[1] |
-                          inout_vars[0] | inout_vars[1])
-            ofile.write("num_vars = {}".format(numvars), 5 if have_elems else 4)
-            if have_elems:
-                ofile.write("end if", 4)
-            # end if
-            ofile.write("else if (output_vars_use) then", 3)
-            have_elems = inout_vars[2] or output_vars[2]
-            if have_elems:
-                ofile.write("if (struct_elements_use) then", 4)
-                numvars = len(inout_vars[0] | inout_vars[2] |
-                              output_vars[0] | output_vars[2])
-                ofile.write("num_vars = {}".format(numvars), 5)
-                ofile.write("else", 4)
-            # end if
-            numvars = len(inout_vars[0] | inout_vars[1] |
-                          output_vars[0] | output_vars[1])
-            ofile.write("num_vars = {}".format(numvars), 5 if have_elems else 4)
-            if have_elems:
-                ofile.write("end if", 4)
-            # end if
+            else_if = ''
+            for test, vsets in [("input_vars_use .and. output_vars_use",
+                                 (input_vars, inout_vars, output_vars)),
+                                ("input_vars_use", (input_vars, inout_vars)),
+                                ("output_vars_use", (inout_vars, output_vars))]:
+                elem_set = set().union(*[x[0] | x[2] for x in vsets])
+                leaf_set = set().union(*[x[0] | x[1] for x in vsets])
+                ofile.write(f"{else_if}if ({test}) then", 3)
+                if elem_set != leaf_set:
+                    ofile.write("if (struct_elements_use) then", 4)
+                    API.write_var_set_loop(ofile, 'variable_list', elem_set, 5)
+                    ofile.write("else", 4)
+                    API.write_var_set_loop(ofile, 'variable_list', leaf_set, 5)
+                    ofile.write("end if", 4)
+                else:
+                    API.write_var_set_loop(ofile, 'variable_list', leaf_set, 4)
+                # end if
+                else_if = 'else '
+            # end for
             ofile.write("else", 3)
-            ofile.write("num_vars = 0", 4)
+            ofile.write("allocate(variable_list(0))", 4)
             ofile.write("end if", 3)
-            ofile.write("allocate(variable_list(num_vars))", 3)
-            # Now, fill in the variable_list array
-            # Start with inout variables
-            elem_start = 1
-            leaf_start = 1
-            leaf_written_set = inout_vars[0].copy()
-            elem_written_set = inout_vars[0].copy()
-            leaf_list = sorted(inout_vars[0])
-            if inout_vars[0] or inout_vars[1] or inout_vars[2]:
-                ofile.write("if (input_vars_use .or. output_vars_use) then", 3)
-                API.write_var_set_loop(ofile, 'variable_list', leaf_list, 4,
-                                       add_allocate=False,
-                                       start_index=leaf_start)
-            # end if
-            leaf_start += len(leaf_list)
-            elem_start += len(leaf_list)
-            # elements which have not been written out
-            elem_list = sorted(inout_vars[2] - elem_written_set)
-            elem_written_set = elem_written_set | inout_vars[2]
-            leaf_list = sorted(inout_vars[1] - leaf_written_set)
-            leaf_written_set = leaf_written_set | inout_vars[1]
-            if elem_list or leaf_list:
-                ofile.write("if (struct_elements_use) then", 4)
-                API.write_var_set_loop(ofile, 'variable_list', elem_list, 5,
-                                       add_allocate=False,
-                                       start_index=elem_start)
-                elem_start += len(elem_list)
-                ofile.write("num_vars = {}".format(elem_start - 1), 5)
-                ofile.write("else", 4)
-                API.write_var_set_loop(ofile, 'variable_list', leaf_list, 5,
-                                       add_allocate=False,
-                                       start_index=leaf_start)
-                leaf_start += len(leaf_list)
-                ofile.write("num_vars = {}".format(leaf_start - 1), 5)
-                ofile.write("end if", 4)
-            else:
-                ofile.write("num_vars = {}".format(len(leaf_written_set)),
-                            4 if leaf_written_set else 3)
-            # end if
-            if inout_vars[0] or inout_vars[1] or inout_vars[2]:
-                ofile.write("end if", 3)
-            # end if
-            # Write input variables
-            leaf_list = sorted(input_vars[0] - leaf_written_set)
-            # Are there any output variables which are also input variables
-            #    (e.g., for a different part (group) of the suite)?
-            # We need to collect them now in case <input_vars> is selected
-            #    but not <output_vars>.
-            leaf_cross_set = output_vars[0] & input_vars[0]
-            simp_cross_set = (output_vars[1] & input_vars[1]) - leaf_cross_set
-            elem_cross_set = (output_vars[2] & input_vars[2]) - leaf_cross_set
-            # Subtract the variables which have already been written out
-            leaf_cross_list = sorted(leaf_cross_set - leaf_written_set)
-            simp_cross_list = sorted(simp_cross_set - leaf_written_set)
-            elem_cross_list = sorted(elem_cross_set - elem_written_set)
-            # Next move back to processing the input variables
-            leaf_written_set = leaf_written_set | input_vars[0]
-            elem_list = sorted(input_vars[2] - elem_written_set)
-            elem_written_set = elem_written_set | input_vars[0] | input_vars[2]
-            have_inputs = elem_list or leaf_list
-            if have_inputs:
-                ofile.write("if (input_vars_use) then", 3)
-                # elements which have not been written out
-            # end if
-            API.write_var_set_loop(ofile, 'variable_list', leaf_list, 4,
-                                   add_allocate=False, start_var="num_vars",
-                                   start_index=1)
-            if leaf_list:
-                ofile.write("num_vars = num_vars + {}".format(len(leaf_list)),
-                            4)
-            # end if
-            leaf_start += len(leaf_list)
-            elem_start += len(leaf_list)
-            leaf_list = input_vars[1].difference(leaf_written_set)
-            leaf_written_set.union(input_vars[1])
-            if elem_list or leaf_list:
-                ofile.write("if (struct_elements_use) then", 4)
-                API.write_var_set_loop(ofile, 'variable_list', elem_list, 5,
-                                       add_allocate=False,
-                                       start_index=elem_start)
-                elem_start += len(elem_list) - 1
-                ofile.write("num_vars = {}".format(elem_start), 5)
-                ofile.write("else", 4)
-                API.write_var_set_loop(ofile, 'variable_list', leaf_list, 5,
-                                       add_allocate=False,
-                                       start_index=leaf_start)
-                leaf_start += len(leaf_list) - 1
-                ofile.write("num_vars = {}".format(leaf_start), 5)
-                ofile.write("end if", 4)
-            # end if
-            if have_inputs:
-                ofile.write("end if", 3)
-            # end if
-            # Write output variables
-            leaf_list = sorted(output_vars[0].difference(leaf_written_set))
-            leaf_written_set = leaf_written_set.union(output_vars[0])
-            elem_written_set = elem_written_set.union(output_vars[0])
-            elem_list = sorted(output_vars[2].difference(elem_written_set))
-            elem_written_set = elem_written_set.union(output_vars[2])
-            have_outputs = elem_list or leaf_list
-            if have_outputs:
-                ofile.write("if (output_vars_use) then", 3)
-            # end if
-            leaf_start = 1
-            API.write_var_set_loop(ofile, 'variable_list', leaf_list, 4,
-                                   add_allocate=False, start_var="num_vars",
-                                   start_index=leaf_start)
-            leaf_start += len(leaf_list)
-            elem_start = leaf_start
-            leaf_list = output_vars[1].difference(leaf_written_set)
-            leaf_written_set.union(output_vars[1])
-            if elem_list or leaf_list:
-                ofile.write("if (struct_elements_use) then", 4)
-                API.write_var_set_loop(ofile, 'variable_list', elem_list, 5,
-                                       add_allocate=False, start_var="num_vars",
-                                       start_index=elem_start)
-                elem_start += len(elem_list)
-                ofile.write("else", 4)
-                API.write_var_set_loop(ofile, 'variable_list', leaf_list, 5,
-                                       add_allocate=False, start_var="num_vars",
-                                       start_index=leaf_start)
-                leaf_start += len(leaf_list)
-                ofile.write("end if", 4)
-            # end if
-            if leaf_cross_list or elem_cross_list:
-                ofile.write("if (.not. input_vars_use) then", 4)
-                API.write_var_set_loop(ofile, 'variable_list', leaf_cross_list,
-                                       5, add_allocate=False,
-                                       start_var="num_vars",
-                                       start_index=leaf_start)
-                leaf_start += len(leaf_cross_list)
-                elem_start += len(leaf_cross_list)
-                if elem_cross_list or simp_cross_list:
-                    ofile.write("if (struct_elements_use) then", 5)
-                    API.write_var_set_loop(ofile, 'variable_list',
-                                           elem_cross_list, 6,
-                                           add_allocate=False,
-                                           start_var="num_vars",
-                                           start_index=elem_start)
-                    elem_start += len(elem_list)
-                    ofile.write("else", 5)
-                    API.write_var_set_loop(ofile, 'variable_list',
-                                           leaf_cross_list, 6,
-                                           add_allocate=False,
-                                           start_var="num_vars",
-                                           start_index=leaf_start)
-                    leaf_start += len(leaf_list)
-                    ofile.write("end if", 5)
-                # end if
-                ofile.write("end if", 4)
-            if have_outputs:
-                ofile.write("end if", 3)
-            # end if
             else_str = 'else '
         # end for
         ofile.write("else", 2)
-- 
2.43.0


From ce741b2507a4e58c334a15f5a7096d421adf84fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:23 +0000
Subject: [PATCH 49/89] fix: Parse suite-level init and finalize tags and empty
 subcycles in prebuild

---
 scripts/mkstatic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/mkstatic.py b/scripts/mkstatic.py
index bdbcf8d..25440e9 100755
--- a/scripts/mkstatic.py
+++ b/scripts/mkstatic.py
@@ -727,7 +727,6 @@ end module {module}
         for group_xml in suite_xml:
             subcycles = []
 
-            self._call_tree[group_xml.attrib['name']] = []
             # Add suite-wide init scheme to group 'init', similar for finalize
             if group_xml.tag.lower() == 'init' or group_xml.tag.lower() == 'finalize':
                 self._all_schemes_called.append(group_xml.text)
@@ -741,12 +740,13 @@ end module {module}
                 continue
 
             # Parse subcycles of all regular groups
+            self._call_tree[group_xml.attrib['name']] = []
             for subcycle_xml in group_xml:
                 schemes = []
+                loop=int(subcycle_xml.get('loop'))
                 for scheme_xml in subcycle_xml:
                     self._all_schemes_called.append(scheme_xml.text)
                     schemes.append(scheme_xml.text)
-                    loop=int(subcycle_xml.get('loop'))
                     for ccpp_stage in CCPP_STAGES:
                         self._all_subroutines_called.append(scheme_xml.text + '_' + CCPP_STAGES[ccpp_stage])
 
-- 
2.43.0


From d83597eea01d7c301455926293094de373e095f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:23 +0000
Subject: [PATCH 50/89] fix: Return an error when a prebuild stage is called
 before init

---
 scripts/mkstatic.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scripts/mkstatic.py b/scripts/mkstatic.py
index 25440e9..11d1249 100755
--- a/scripts/mkstatic.py
+++ b/scripts/mkstatic.py
@@ -1012,6 +1012,7 @@ end module {module}
       if (.not.initialized({ccpp_var_name}%ccpp_instance)) then
         write({target_name_msg},'(*(a))') '{name}_timestep_init called before {name}_init'
         {target_name_flag} = 1
+        ierr = {target_name_flag}
         return
       end if
 ''',
@@ -1019,6 +1020,7 @@ end module {module}
       if (.not.initialized({ccpp_var_name}%ccpp_instance)) then
         write({target_name_msg},'(*(a))') '{name}_run called before {name}_init'
         {target_name_flag} = 1
+        ierr = {target_name_flag}
         return
       end if
 ''',
@@ -1026,6 +1028,7 @@ end module {module}
       if (.not.initialized({ccpp_var_name}%ccpp_instance)) then
         write({target_name_msg},'(*(a))') '{name}_timestep_finalize called before {name}_init'
         {target_name_flag} = 1
+        ierr = {target_name_flag}
         return
       end if
 ''',
-- 
2.43.0


From 0d091b022ddbf7ede884438e900ae32af3570a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:23 +0000
Subject: [PATCH 51/89] fix: Finalize only the requested instance in prebuild
 group caps

---
 scripts/mkstatic.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/scripts/mkstatic.py b/scripts/mkstatic.py
index 11d1249..efa0459 100755
--- a/scripts/mkstatic.py
+++ b/scripts/mkstatic.py
@@ -1045,7 +1045,7 @@ end module {module}
         'run' : '',
         'timestep_finalize' : '',
         'finalize' : '''
-      initialized = .false.
+      initialized({ccpp_var_name}%ccpp_instance) = .false.
 ''',
     }
 
@@ -1904,11 +1904,11 @@ end module {module}
                 if subcycle_body:
                     body += subcycle_body_prefix + subcycle_body + subcycle_body_suffix
 
-            #For the init stage, for the case when the suite doesn't have any schemes with init phases,
-            #we still need to add the host-supplied ccpp_t variable to the init group caps so that it is
+            #For the init and finalize stages, for the case when the suite doesn't have any schemes with these phases,
+            #we still need to add the host-supplied ccpp_t variable to the group caps so that it is
             #available for setting the initialized flag for the particular instance being called. Otherwise,
-            #the initialized_set_block for the init phase tries to reference the unavailable ccpp_t variable.
-            if (ccpp_stage == 'init' and not self.parents[ccpp_stage]):
+            #the initialized_set_block for the phase tries to reference the unavailable ccpp_t variable.
+            if (ccpp_stage in ['init', 'finalize'] and not self.parents[ccpp_stage]):
                 ccpp_var.intent = 'in'
                 self.parents[ccpp_stage].update({ccpp_var.standard_name:ccpp_var})
 
-- 
2.43.0


From 880650834681e60d9888f186c9b4b45a65919e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:23 +0000
Subject: [PATCH 52/89] fix: Pass optional arguments which need a unit
 conversion for any intent in prebuild

---
 scripts/mkstatic.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/scripts/mkstatic.py b/scripts/mkstatic.py
index efa0459..be0196e 100755
--- a/scripts/mkstatic.py
+++ b/scripts/mkstatic.py
@@ -1759,19 +1759,19 @@ end module {module}
                                 actions_in += '        {t} = {c}\n'.format(t=tmpvar.local_name,
                                                                            c=var.actions['in'].format(var=tmpvar.target.replace(dim_string_target_name, '') + dim_string,
                                                                                                       kind=kind_string))
-                                # If the variable is conditionally allocated, assign pointer
-                                if not conditional == '.true.':
-                                    actions_in += '        {p} => {t}{d}\n'.format(p=f"{tmpptr.local_name}_array({CCPP_INTERNAL_VARIABLES[CCPP_THREAD_NUMBER]})%p",
-                                                                                   t=tmpvar.local_name, d=dim_string_allocate)
+                            # If the variable is conditionally allocated, assign pointer
+                            if not conditional == '.true.':
+                                actions_in += '        {p} => {t}{d}\n'.format(p=f"{tmpptr.local_name}_array({CCPP_INTERNAL_VARIABLES[CCPP_THREAD_NUMBER]})%p",
+                                                                               t=tmpvar.local_name, d=dim_string_allocate)
                             if var.actions['out']:
                                 # Add unit conversion after returning from the subroutine
                                 actions_out  += '        {v}{d} = {c}\n'.format(v=tmpvar.target.replace(dim_string_target_name, ''),
                                                                                 d=dim_string,
                                                                                 c=var.actions['out'].format(var=tmpvar.local_name,
                                                                                                             kind=kind_string))
-                                # If the variable is conditionally allocated, nullify pointer
-                                if not conditional == '.true.':
-                                    actions_out += '        nullify({p})\n'.format(p=f"{tmpptr.local_name}_array({CCPP_INTERNAL_VARIABLES[CCPP_THREAD_NUMBER]})%p")
+                            # If the variable is conditionally allocated, nullify pointer
+                            if not conditional == '.true.':
+                                actions_out += '        nullify({p})\n'.format(p=f"{tmpptr.local_name}_array({CCPP_INTERNAL_VARIABLES[CCPP_THREAD_NUMBER]})%p")
 
                             if tmpvar.rank:
                                 # Add deallocate statement if the variable has a rank > 0
-- 
2.43.0


From d0a7a70da4c636869e8e4f2a3ca24eb41cffa609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:37 +0000
Subject: [PATCH 53/89] fix: Read suite definition files in any encoding,
 report what is not XML

---
 scripts/parse_tools/xml_tools.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/scripts/parse_tools/xml_tools.py b/scripts/parse_tools/xml_tools.py
index 164b169..a2d6767 100644
--- a/scripts/parse_tools/xml_tools.py
+++ b/scripts/parse_tools/xml_tools.py
@@ -227,14 +227,14 @@ def read_xml_file(filename, logger=None):
 ###############################################################################
     """Read the XML file, <filename>, and return its tree and root"""
     if os.path.isfile(filename) and os.access(filename, os.R_OK):
-        file_open = (lambda x: open(x, 'r', encoding='utf-8'))
-        with file_open(filename) as file_:
-            try:
-                tree = ET.parse(file_)
-                root = tree.getroot()
-            except ET.ParseError as perr:
-                emsg = "read_xml_file: Cannot read {}, {}"
-                raise CCPPError(emsg.format(filename, perr)) from perr
+        try:
+            # Note that the parser determines the encoding of the file
+            tree = ET.parse(filename)
+            root = tree.getroot()
+        except (ET.ParseError, LookupError, ValueError) as perr:
+            emsg = "read_xml_file: Cannot read {}, {}"
+            raise CCPPError(emsg.format(filename, perr)) from perr
+        # end try
     elif not os.access(filename, os.R_OK):
         raise CCPPError("read_xml_file: Cannot open '{}'".format(filename))
     else:
-- 
2.43.0


From adf3549de5f0bbc61707a38f90cbfd95804d2c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:37 +0000
Subject: [PATCH 54/89] fix: Refuse a scheme element without a name

---
 scripts/suite_objects.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/scripts/suite_objects.py b/scripts/suite_objects.py
index 6d744d0..ba8be15 100755
--- a/scripts/suite_objects.py
+++ b/scripts/suite_objects.py
@@ -1220,6 +1220,10 @@ class Scheme(SuiteObject):
     def __init__(self, scheme_xml, context, parent, run_env):
         """Initialize this physics Scheme"""
         name = scheme_xml.text
+        if not name:
+            errmsg = "Scheme without a name{}"
+            raise CCPPError(errmsg.format(context_string(context)))
+        # end if
         self.__subroutine_name = None
         self.__context = context
         self.__version = scheme_xml.get('version', None)
-- 
2.43.0


From e762f4f232a9342faf4d05560979405064a4c673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:37 +0000
Subject: [PATCH 55/89] fix: Report missing input files

---
 scripts/file_utils.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/scripts/file_utils.py b/scripts/file_utils.py
index dee383c..4ddeb49 100644
--- a/scripts/file_utils.py
+++ b/scripts/file_utils.py
@@ -59,7 +59,12 @@ def add_unique_files(filepath, pdesc, master_list, logger):
     Return a list of errors found
     Wildcards in <filepath> are expanded"""
     errors = list()
-    for file in sorted(glob.glob(filepath)):
+    files = sorted(glob.glob(filepath))
+    if (not files) and (not glob.has_magic(filepath)):
+        # The pathname of a single file, it will be reported if it is missing
+        files = [filepath]
+    # end if
+    for file in files:
         errs = check_for_existing_file(file, pdesc)
         if errs:
             errors.extend(errs)
-- 
2.43.0


From 2d6c6f09f3e27a72af55bd2ca1d64c93719ceeb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:37 +0000
Subject: [PATCH 56/89] fix: Name the suite definition file in schema errors

---
 scripts/ccpp_suite.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/scripts/ccpp_suite.py b/scripts/ccpp_suite.py
index 0889c52..d21d288 100644
--- a/scripts/ccpp_suite.py
+++ b/scripts/ccpp_suite.py
@@ -198,12 +198,16 @@ character(len=16) :: {css_var_name} = '{state}'
         # We do not have line number information for the XML file
         self.__context = ParseContext(filename=self.__sdf_name)
         # Validate the XML file
-        version = find_schema_version(suite_xml)
-        res = validate_xml_file(self.__sdf_name, 'suite', version,
-                                run_env.logger)
+        emsg = f"Invalid suite definition file, '{self.__sdf_name}'"
+        try:
+            version = find_schema_version(suite_xml)
+            res = validate_xml_file(self.__sdf_name, 'suite', version,
+                                    run_env.logger)
+        except CCPPError as cerr:
+            raise CCPPError(f"{emsg}\n{cerr}") from cerr
+        # end try
         if not res:
-            emsg = "Invalid suite definition file, '{}'"
-            raise CCPPError(emsg.format(self.__sdf_name))
+            raise CCPPError(emsg)
         # end if
         self.__name = suite_xml.get('name')
         self.__module = 'ccpp_{}_cap'.format(self.name)
-- 
2.43.0


From d3cf4325bda1bd932e3c28b7719807ec6fbdc0f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:37 +0000
Subject: [PATCH 57/89] fix: Refuse two suites of the same name

---
 scripts/ccpp_suite.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/scripts/ccpp_suite.py b/scripts/ccpp_suite.py
index d21d288..1a93641 100644
--- a/scripts/ccpp_suite.py
+++ b/scripts/ccpp_suite.py
@@ -714,6 +714,13 @@ class API(VarDictionary):
         # Turn the SDF files into Suites
         for sdf in sdfs:
             suite = Suite(sdf, self, run_env)
+            for other in self.__suites:
+                if other.name.lower() == suite.name.lower():
+                    emsg = "Duplicate suite, '{}', in '{}' and '{}'"
+                    raise CCPPError(emsg.format(suite.name, other.sdf_name,
+                                                suite.sdf_name))
+                # end if
+            # end for
             suite.analyze(self.host_model, scheme_library,
                           self.__ddt_lib, run_env)
             self.__suites.append(suite)
-- 
2.43.0


From 2f83a69e110fce79e2fe1054799b70ca389e3077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:47 +0000
Subject: [PATCH 58/89] fix: Refuse duplicate group names in a suite

---
 scripts/ccpp_suite.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/scripts/ccpp_suite.py b/scripts/ccpp_suite.py
index 1a93641..5143cce 100644
--- a/scripts/ccpp_suite.py
+++ b/scripts/ccpp_suite.py
@@ -240,6 +240,13 @@ character(len=16) :: {css_var_name} = '{state}'
             # Suite item is a group or a suite-wide init or final method
             if item_type == 'group':
                 # Parse a group
+                gname = suite_item.get('name')
+                fname = f"{self.name}_{gname}".lower()
+                used = [x.name for x in self.__groups]
+                if fname in [x.lower() for x in used + self._end_groups]:
+                    emsg = "Duplicate group, '{}', in suite definition file, '{}'"
+                    raise CCPPError(emsg.format(gname, self.__sdf_name))
+                # end if
                 self.__groups.append(self.new_group(suite_item, RUN_PHASE_NAME,
                                                     run_env))
             else:
-- 
2.43.0


From 75084949e1143b2c84b86f82e11b3de9f881a1d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:47 +0000
Subject: [PATCH 59/89] fix: Handle suite-wide init and final schemes

---
 schema/suite_v1_0.xsd |  2 +-
 scripts/ccpp_suite.py | 35 ++++++++++++++++++++++++-----------
 2 files changed, 25 insertions(+), 12 deletions(-)

diff --git a/schema/suite_v1_0.xsd b/schema/suite_v1_0.xsd
index 121438e..b6548cf 100644
--- a/schema/suite_v1_0.xsd
+++ b/schema/suite_v1_0.xsd
@@ -111,7 +111,7 @@
       <xs:sequence>
         <xs:choice minOccurs="0" maxOccurs="1">
           <xs:element name="init"      type="scheme_type"/>
-          <xs:element name="initalize" type="scheme_type"/>
+          <xs:element name="initialize" type="scheme_type"/>
         </xs:choice>
         <xs:element ref="group" minOccurs="1" maxOccurs="unbounded"/>
         <xs:choice  minOccurs="0" maxOccurs="1">
diff --git a/scripts/ccpp_suite.py b/scripts/ccpp_suite.py
index 5143cce..5ffad14 100644
--- a/scripts/ccpp_suite.py
+++ b/scripts/ccpp_suite.py
@@ -95,6 +95,7 @@ character(len=16) :: {css_var_name} = '{state}'
         self.__groups = list()
         self.__suite_init_group = None
         self.__suite_final_group = None
+        self.__suite_final_schemes = list()
         self.__timestep_init_group = None
         self.__timestep_final_group = None
         self.__context = None
@@ -250,16 +251,22 @@ character(len=16) :: {css_var_name} = '{state}'
                 self.__groups.append(self.new_group(suite_item, RUN_PHASE_NAME,
                                                     run_env))
             else:
-                match_trans = CCPP_STATE_MACH.function_match(item_type)
+                match_trans = CCPP_STATE_MACH.transition_match(item_type)
                 if match_trans is None:
                     emsg = "Unknown CCPP suite component tag type, '{}'"
                     raise CCPPError(emsg.format(item_type))
                 # end if
                 if match_trans in self._full_phases:
-                    # Parse a suite-wide initialization scheme
+                    # Parse a suite-wide initialization or finalization scheme
+                    pgroup = self._full_phases[match_trans]
                     scheme = Scheme(suite_item, self.__context,
-                                    self, run_env)
-                    self._full_phases[match_trans].add_item(scheme)
+                                    pgroup, run_env)
+                    if pgroup.name in self._beg_groups:
+                        pgroup.add_part(scheme)
+                    else:
+                        # This scheme is called after those of the groups
+                        self.__suite_final_schemes.append((pgroup, scheme))
+                    # end if
                 else:
                     emsg = "Unhandled CCPP suite component tag type, '{}'"
                     raise ParseInternalError(emsg.format(match_trans))
@@ -451,21 +458,22 @@ character(len=16) :: {css_var_name} = '{state}'
         # (keep them in the order in which the suite lists them)
         suite_schemes = []
         for group in self.groups:
-            for scheme in group.schemes():
-                if scheme.name not in suite_schemes:
-                    suite_schemes.append(scheme.name)
-                # end if
-            # end for
+            if self.is_run_group(group):
+                for scheme in group.schemes():
+                    if scheme.name not in suite_schemes:
+                        suite_schemes.append(scheme.name)
+                    # end if
+                # end for
+            # end if
         # end for
         no_scheme_entries = {} # Skip schemes which have no metadata
         for module in suite_schemes:
             scheme_entries = scheme_library.get(module, no_scheme_entries)
             for phase in self._full_phases:
                 if phase in scheme_entries:
-                    header = scheme_entries[phase]
                     # Add this scheme's init or final routine
                     pgroup = self._full_phases[phase]
-                    if not pgroup.has_item(header.title):
+                    if not pgroup.has_item(module):
                         sstr = Suite.__scheme_template.format(module)
                         sxml = ET.fromstring(sstr)
                         scheme = Scheme(sxml, self.__context, pgroup, run_env)
@@ -474,6 +482,11 @@ character(len=16) :: {css_var_name} = '{state}'
                 # end if (no else, scheme does not have phase)
             # end for
         # end for
+        for pgroup, scheme in self.__suite_final_schemes:
+            if not pgroup.has_item(scheme.name):
+                pgroup.add_part(scheme)
+            # end if (no else, scheme is already in group)
+        # end for
         # Grab the host model argument list
         self.__host_arg_list_full = host_model.argument_list()
         self.__host_arg_list_noloop = host_model.argument_list(loop_vars=False)
-- 
2.43.0


From 488c7daae0e198418cb204284d8a563500d32dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:47 +0000
Subject: [PATCH 60/89] fix: Compare the metadata of every scheme with the host
 metadata

---
 scripts/ccpp_prebuild.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/scripts/ccpp_prebuild.py b/scripts/ccpp_prebuild.py
index bc98a7f..e7a6f5f 100755
--- a/scripts/ccpp_prebuild.py
+++ b/scripts/ccpp_prebuild.py
@@ -465,14 +465,17 @@ def compare_metadata(metadata_define, metadata_request):
             logging.error(error_message)
             continue
         # Check that the variable properties are compatible between the model and the schemes;
-        # because we know that all variables in the metadata_request[var_name] list are compatible,
-        # it is sufficient to test the first entry against (the unique) metadata_define[var_name][0].
-        if not metadata_request[var_name][0].compatible(metadata_define[var_name][0]):
+        # test every entry in the metadata_request[var_name] list against (the unique)
+        # metadata_define[var_name][0] (the entries are compatible with each other if one of them
+        # is of type character(len=*), even if their lengths differ).
+        incompatible = [ var for var in metadata_request[var_name] if not var.compatible(metadata_define[var_name][0]) ]
+        if incompatible:
             success = False
-            error_message = '  incompatible entries in metadata for variable {0}:\n'.format(var_name) +\
-                            '    provided:  {0}\n'.format(metadata_define[var_name][0].print_debug()) +\
-                            '    requested: {0}'.format(metadata_request[var_name][0].print_debug())
-            logging.error(error_message)
+            for var in incompatible:
+                error_message = '  incompatible entries in metadata for variable {0}:\n'.format(var_name) +\
+                                '    provided:  {0}\n'.format(metadata_define[var_name][0].print_debug()) +\
+                                '    requested: {0}'.format(var.print_debug())
+                logging.error(error_message)
             continue
         # Check for and register unit conversions if necessary. This must be done for each registered
         # variable in the metadata_request[var_name] list (i.e. for each subroutine that is using it).
-- 
2.43.0


From 612dc3941c2bf9a1748382bbafc05f45aa0eddff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:47 +0000
Subject: [PATCH 61/89] fix: Match the entry points of a suite by their full
 names in prebuild

---
 scripts/ccpp_prebuild.py | 3 ---
 scripts/mkstatic.py      | 2 +-
 2 files changed, 1 insertion(+), 4 deletions(-)

diff --git a/scripts/ccpp_prebuild.py b/scripts/ccpp_prebuild.py
index e7a6f5f..f5a99cb 100755
--- a/scripts/ccpp_prebuild.py
+++ b/scripts/ccpp_prebuild.py
@@ -387,9 +387,6 @@ def filter_metadata(metadata, arguments, dependencies, schemes_in_files, suites)
         for var in metadata[var_name][:]:
             container_string = decode_container(var.container)
             subroutine = container_string[container_string.find('SUBROUTINE')+len('SUBROUTINE')+1:]
-            # Replace the full CCPP stage name with the abbreviated version
-            for ccpp_stage in CCPP_STAGES.keys():
-                subroutine = subroutine.replace(ccpp_stage, CCPP_STAGES[ccpp_stage])
             for suite in suites:
                 if subroutine in suite.all_subroutines_called:
                     keep = True
diff --git a/scripts/mkstatic.py b/scripts/mkstatic.py
index be0196e..541c1a6 100755
--- a/scripts/mkstatic.py
+++ b/scripts/mkstatic.py
@@ -748,7 +748,7 @@ end module {module}
                     self._all_schemes_called.append(scheme_xml.text)
                     schemes.append(scheme_xml.text)
                     for ccpp_stage in CCPP_STAGES:
-                        self._all_subroutines_called.append(scheme_xml.text + '_' + CCPP_STAGES[ccpp_stage])
+                        self._all_subroutines_called.append(scheme_xml.text + '_' + ccpp_stage)
 
                 subcycles.append(Subcycle(loop=loop, schemes=schemes))
 
-- 
2.43.0


From 9ffb3d23a8b179ed6e1a2be74efa1eaad3619662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:47 +0000
Subject: [PATCH 62/89] fix: Report errors in host variable definitions in
 prebuild

---
 scripts/ccpp_prebuild.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/scripts/ccpp_prebuild.py b/scripts/ccpp_prebuild.py
index f5a99cb..c41d6a4 100755
--- a/scripts/ccpp_prebuild.py
+++ b/scripts/ccpp_prebuild.py
@@ -17,6 +17,7 @@ import sys
 from common import encode_container, decode_container, decode_container_as_dict
 from common import CCPP_STAGES, CCPP_INTERNAL_VARIABLES, CCPP_STATIC_API_MODULE, CCPP_INTERNAL_VARIABLE_DEFINITON_FILE
 from common import STANDARD_VARIABLE_TYPES, STANDARD_INTEGER_TYPE, CCPP_TYPE
+from common import CCPP_T_INSTANCE_VARIABLE
 from common import SUITE_DEFINITION_FILENAME_PATTERN
 from common import split_var_name_and_array_reference
 from metadata_parser import merge_dictionaries, parse_scheme_tables, parse_variable_tables
@@ -318,12 +319,12 @@ def gather_variable_definitions(variable_definition_files, typedefs_new_metadata
             if len(metadata_define[key])>1:
                 logging.error("Multiple definitions of standard_name {0} in type/variable defintions".format(key))
                 success = False
-                return
+                return (success, metadata_define, dependencies_define)
             (success, local_name, converted_variables) = convert_local_name_from_new_metadata(
                              metadata_define, key, typedefs_new_metadata, converted_variables)
             if not success:
                 logging.error("An error occurred during the conversion of variable {0} from new to old metadata format".format(key))
-                return (success, metadata_define)
+                return (success, metadata_define, dependencies_define)
             # Update the local name of the variable, if necessary
             if not metadata_define[key][0].local_name == local_name:
                 logging.debug("Updating local name of variable {0} from {1} to {2}".format(key,
@@ -445,6 +446,10 @@ def compare_metadata(metadata_define, metadata_request):
     success = True
     modules = []
     metadata = collections.OrderedDict()
+    # The caps need the (mandatory) variable of type ccpp_t
+    if not CCPP_T_INSTANCE_VARIABLE in metadata_define.keys():
+        success = False
+        logging.error('Variable {0} not provided by the model'.format(CCPP_T_INSTANCE_VARIABLE))
     for var_name in sorted(metadata_request.keys()):
         # Check that variable is provided by the model
         if not var_name in metadata_define.keys():
-- 
2.43.0


From 0fb2ef6e1e99c15a017d6bfd6d5a7fe754f2e1b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:00 +0000
Subject: [PATCH 63/89] fix: Report unknown indices in host local names in
 prebuild

---
 scripts/ccpp_prebuild.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/scripts/ccpp_prebuild.py b/scripts/ccpp_prebuild.py
index c41d6a4..37a4397 100755
--- a/scripts/ccpp_prebuild.py
+++ b/scripts/ccpp_prebuild.py
@@ -266,6 +266,11 @@ def convert_local_name_from_new_metadata(metadata, standard_name, typedefs_new_m
                     continue
                 except ValueError:
                     pass
+                # Check that the dimension is known to the host model
+                if not dimension in metadata.keys():
+                    logging.error("Index {0} of variable {1} is not defined in host model metadata".format(dimension, standard_name))
+                    success = False
+                    return (success, None, converted_variables)
                 # Convert the local name of the dimension to old metadata standard, if necessary (recursive call)
                 (success, local_name_dim, converted_variables) = convert_local_name_from_new_metadata(
                                       metadata, dimension, typedefs_new_metadata, converted_variables)
-- 
2.43.0


From a199a24adf71937b7431eb214a804bbb86791ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:05 +0000
Subject: [PATCH 64/89] fix: Do not crash when reporting incompatible variables
 without a container in prebuild

---
 scripts/mkcap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/mkcap.py b/scripts/mkcap.py
index 69c2292..7e6bc65 100755
--- a/scripts/mkcap.py
+++ b/scripts/mkcap.py
@@ -392,7 +392,7 @@ class Var(object):
     def print_debug(self):
         '''Print the data retrieval line for the variable.'''
         # Scheme variables don't have the active attribute
-        if 'SCHEME' in self.container:
+        if self.container and 'SCHEME' in self.container:
             str='''Contents of {s} (* = mandatory for compatibility):
             standard_name = {s.standard_name} *
             long_name     = {s.long_name}
-- 
2.43.0


From f83482ac76993462931c5f13c230628a3064091b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:05 +0000
Subject: [PATCH 65/89] fix: Find all tables and scheme entry points in the
 Fortran files given to prebuild

---
 scripts/metadata_parser.py | 98 ++++++++++++++++++++++++++++++--------
 1 file changed, 79 insertions(+), 19 deletions(-)

diff --git a/scripts/metadata_parser.py b/scripts/metadata_parser.py
index d1277eb..ac8db83 100755
--- a/scripts/metadata_parser.py
+++ b/scripts/metadata_parser.py
@@ -249,6 +249,27 @@ def read_new_metadata(filename, module_name, table_name, scheme_name = None, sub
 
     return (metadata, dependencies)
 
+# Prefixes of subroutine statements
+SUBROUTINE_PREFIXES = ['pure', 'impure', 'elemental', 'recursive', 'non_recursive', 'module']
+
+def construct_words(line):
+    """Split <line> into words for the purpose of identifying module, type
+    and subroutine constructs: remove any trailing comment, split one-word
+    closing statements (e.g. 'endmodule') and remove subroutine prefixes
+    (e.g. 'pure')."""
+    if '!' in line and not line.startswith('!'):
+        line = line[:line.find('!')]
+    words = line.split()
+    if words and words[0].lower() in ['endmodule', 'endprogram', 'endsubroutine', 'endtype']:
+        words = [words[0][:3], words[0][3:]] + words[1:]
+    for j in range(len(words)):
+        if words[j].lower() == 'subroutine':
+            words = words[j:]
+            break
+        if not words[j].lower() in SUBROUTINE_PREFIXES:
+            break
+    return words
+
 def parse_variable_tables(filepath, filename):
     """Parses metadata tables on the host model side that define the available variables.
     Metadata tables can refer to variables inside a module or as part of a derived
@@ -283,7 +304,8 @@ def parse_variable_tables(filepath, filename):
         if line == '' or line == '&':
             continue
         # Remove line continuations: concatenate with following lines
-        if line.endswith('&'):
+        # (an ampersand at the end of a comment line does not continue anything)
+        if line.endswith('&') and not line.startswith('!'):
             buffer += file_lines[i].rstrip('\n').replace('&', ' ')
             continue
         # Write out line with buffer and reset buffer
@@ -293,9 +315,10 @@ def parse_variable_tables(filepath, filename):
 
     # Find all modules within the file, and save the start and end lines
     module_lines = collections.OrderedDict()
+    module_name = None
     line_counter = 0
     for line in lines:
-        words = line.split()
+        words = construct_words(line)
         if len(words) > 1 and words[0].lower() in ['module', 'program'] and not words[1].lower() == 'procedure':
             module_name = words[1].strip()
             if module_name in registry.keys():
@@ -308,11 +331,16 @@ def parse_variable_tables(filepath, filename):
             except IndexError:
                 logging.warning('Encountered closing statement "end module" without module name; assume module_name is {0}'.format(module_name))
                 test_module_name = module_name
-            if not module_name == test_module_name:
+            if not module_name or not module_name.lower() == test_module_name.lower():
                 raise Exception('Module names in opening/closing statement do not match: {0} vs {1}'.format(module_name, test_module_name))
             module_lines[module_name]['endline'] = line_counter
         line_counter += 1
 
+    # Check that for each module the start and end lines were found
+    for module_name in registry.keys():
+        if not 'endline' in module_lines[module_name].keys():
+            raise Exception('Error parsing start and end lines for module {0} in file {1}'.format(module_name, filename))
+
     # Parse each module in the file separately
     for module_name in registry.keys():
         startline = module_lines[module_name]['startline']
@@ -321,10 +349,10 @@ def parse_variable_tables(filepath, filename):
         in_type = False
         for line in lines[startline:endline]:
             # For the purpose of identifying module, type and scheme constructs, remove any trailing comments from line
+            words = construct_words(line)
             if '!' in line and not line.startswith('!'):
                 line = line[:line.find('!')]
             current_line_number = startline + line_counter
-            words = line.split()
             for j in range(len(words)):
                 # Check for the word 'type', that it is the first word in the line,
                 # and that a name exists afterwards. It is assumed that definitions
@@ -355,7 +383,7 @@ def parse_variable_tables(filepath, filename):
                     except IndexError:
                         logging.warning('Encountered closing statement "end type" without type name; assume type_name is {0}'.format(type_name))
                         test_type_name = type_name
-                    if not type_name == test_type_name:
+                    if not type_name.lower() == test_type_name.lower():
                         raise Exception('Type names in opening/closing statement do not match: {0} vs {1}'.format(type_name, test_type_name))
                     in_type = False
                     registry[module_name][type_name].append(current_line_number)
@@ -366,6 +394,9 @@ def parse_variable_tables(filepath, filename):
                 # type_def_line and extract type_name
                 else:
                     type_declaration = FtypeTypeDecl.type_def_line(line.strip())
+                    # Ignore statements that do not define a type
+                    if not type_declaration:
+                        continue
                     if in_type:
                         raise Exception('Nested definitions of derived types not supported')
                     in_type = True
@@ -556,7 +587,8 @@ def parse_scheme_tables(filepath, filename):
         if line == '' or line == '&':
             continue
         # Remove line continuations: concatenate with following lines
-        if line.endswith('&'):
+        # (an ampersand at the end of a comment line does not continue anything)
+        if line.endswith('&') and not line.startswith('!'):
             buffer += file_lines[i].rstrip('\n').replace('&', ' ')
             continue
         # Write out line with buffer and reset buffer
@@ -567,12 +599,10 @@ def parse_scheme_tables(filepath, filename):
 
     # Find all modules within the file, and save the start and end lines
     module_lines = collections.OrderedDict()
+    module_name = None
     line_counter = 0
     for line in lines:
-        # For the purpose of identifying module constructs, remove any trailing comments from line
-        if '!' in line and not line.startswith('!'):
-            line = line[:line.find('!')]
-        words = line.split()
+        words = construct_words(line)
         if len(words) > 1 and words[0].lower() == 'module' and not words[1].lower() == 'procedure':
             module_name = words[1].strip()
             if module_name in registry.keys():
@@ -585,29 +615,47 @@ def parse_scheme_tables(filepath, filename):
             except IndexError:
                 logging.warning('Warning, encountered closing statement "end module" without module name; assume module_name is {0}'.format(module_name))
                 test_module_name = module_name
-            if not module_name == test_module_name:
+            if not module_name or not module_name.lower() == test_module_name.lower():
                 raise Exception('Module names in opening/closing statement do not match: {0} vs {1}'.format(module_name, test_module_name))
             module_lines[module_name]['endline'] = line_counter
         line_counter += 1
 
+    # Check that for each module the start and end lines were found
+    for module_name in registry.keys():
+        if not 'endline' in module_lines[module_name].keys():
+            raise Exception('Error parsing start and end lines for module {0} in file {1}'.format(module_name, filename))
+
+    # Names of everything in the file that can have an argument table
+    table_owners = [module_name.lower() for module_name in registry.keys()]
+    for line in lines:
+        words = construct_words(line)
+        if len(words) > 1 and words[0].lower() == 'subroutine':
+            table_owners.append(words[1].split('(')[0].lower())
+        elif words and re.match('type([,:]|$)', words[0].lower()):
+            type_declaration = FtypeTypeDecl.type_def_line(line.strip())
+            if type_declaration:
+                table_owners.append(type_declaration[0].lower())
+
     # Parse each module in the file separately
     for module_name in registry.keys():
         startline = module_lines[module_name]['startline']
         endline = module_lines[module_name]['endline']
         line_counter = 0
         in_subroutine = False
+        subroutine_name = None
+        # Number of subroutines that are currently open inside of the subroutine
+        nested = 0
         for line in lines[startline:endline]:
             # For the purpose of identifying scheme constructs, remove any trailing comments from line
-            if '!' in line and not line.startswith('!'):
-                line = line[:line.find('!')]
+            words = construct_words(line)
             current_line_number = startline + line_counter
-            words = line.split()
             for j in range(len(words)):
                 # Check for the word 'subroutine', that it is the first word in the line,
                 # and that a name exists afterwards. Nested subroutines are ignored.
                 if words[j].lower() == 'subroutine' and j == 0 and len(words) > 1:
                     if in_subroutine:
                         logging.debug('Warning, ignoring nested subroutine in module {0} and subroutine {1}'.format(module_name, subroutine_name))
+                        nested += 1
                         continue
                     subroutine_name = words[j+1].split('(')[0].strip()
                     # Consider the last substring separated by a '_' of the subroutine name as a 'postfix'
@@ -637,10 +685,13 @@ def parse_scheme_tables(filepath, filename):
                         test_subroutine_name = words[j+1]
                     except IndexError:
                         logging.warning('Warning, encountered closing statement "end subroutine" without subroutine name; ' +\
-                                        ' assume subroutine_name is {0}'.format(subroutine_name))
-                        test_subroutine_name = subroutine_name
-                    if in_subroutine and subroutine_name == test_subroutine_name:
+                                        ' assume that it closes the innermost subroutine')
+                        test_subroutine_name = None if nested else subroutine_name
+                    if in_subroutine and not (test_subroutine_name and subroutine_name.lower() == test_subroutine_name.lower()):
+                        nested = max(nested - 1, 0)
+                    elif in_subroutine:
                         in_subroutine = False
+                        nested = 0
                         registry[module_name][scheme_name][subroutine_name].append(current_line_number)
                 # Avoid problems by enforcing end statements to carry a descriptor (subroutine, module, ...)
                 elif in_subroutine and len(words) == 1 and words[0].lower() == 'end':
@@ -648,6 +699,14 @@ def parse_scheme_tables(filepath, filename):
                                     'line {0}="{1}" in file {2}'.format(original_line_numbers[current_line_number], line, filename))
             line_counter += 1
 
+        # Check that every table belongs to a subroutine, a type or a module in this file
+        for line in lines[startline:endline]:
+            words = line.split()
+            if len(words) > 2 and words[0] in ['!!', '!>'] and words[1] == '\\section' and words[2].startswith('arg_table_'):
+                table_name = words[2].replace('arg_table_','')
+                if not table_name.lower() in table_owners:
+                    raise Exception('Encountered table with name {0} without corresponding subroutine, type or module name'.format(table_name))
+
         # Check that for each registered subroutine the start and end lines were found
         for scheme_name in registry[module_name].keys():
             for subroutine_name in registry[module_name][scheme_name].keys():
@@ -669,18 +728,19 @@ def parse_scheme_tables(filepath, filename):
                 # "upward" from the subroutine definition line for the "arg_table_SubroutineName" section
                 table_found = False
                 header_line_number = None
+                table_regex = re.compile('arg_table_{0}(?!\\w)'.format(subroutine_name))
                 for line_number in range(registry[module_name][scheme_name][subroutine_name][0], -1, -1):
                     line = lines[line_number]
                     words = line.split()
                     for word in words:
-                        if (len(words) > 2 and words[0] in ['!!', '!>'] and '\section' in words[1] and 'arg_table_{0}'.format(subroutine_name) in words[2]):
+                        if (len(words) > 2 and words[0] in ['!!', '!>'] and '\section' in words[1] and table_regex.search(words[2])):
                             table_found = True
                             header_line_number = line_number + 1
                             table_name = subroutine_name
                             break
                         else:
                             for word in words:
-                                if 'arg_table_{0}'.format(subroutine_name) in word:
+                                if table_regex.search(word):
                                     raise Exception("Malformatted table found in {0} / {1} / {2} / {3}".format(filename, module_name, scheme_name, subroutine_name))
                     if table_found:
                         break
-- 
2.43.0


From 3eea034772a1edf593416cb38288c5fb86e611c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:05 +0000
Subject: [PATCH 66/89] fix: Write the optional attribute in metadata generated
 from Fortran

---
 scripts/ccpp_fortran_to_metadata.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scripts/ccpp_fortran_to_metadata.py b/scripts/ccpp_fortran_to_metadata.py
index 4c301d1..2841222 100755
--- a/scripts/ccpp_fortran_to_metadata.py
+++ b/scripts/ccpp_fortran_to_metadata.py
@@ -161,6 +161,9 @@ def write_metadata_file(mfilename, ftables, sep):
                         outfile.write('  intent = {}{}'.format(prop,
                                                                os.linesep))
                     # end if
+                    if var.get_prop_value('optional'):
+                        outfile.write('  optional = True{}'.format(os.linesep))
+                    # end if
                 # end for
             # end for
         # end for
-- 
2.43.0


From 10dbe4034983085cdc89128196c442944c9927d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:16 +0000
Subject: [PATCH 67/89] fix: Find the variables of subroutines with SUBROUTINE
 in their names in prebuild

---
 scripts/ccpp_prebuild.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/scripts/ccpp_prebuild.py b/scripts/ccpp_prebuild.py
index 37a4397..1dc527a 100755
--- a/scripts/ccpp_prebuild.py
+++ b/scripts/ccpp_prebuild.py
@@ -14,7 +14,7 @@ import re
 import sys
 
 # CCPP framework imports
-from common import encode_container, decode_container, decode_container_as_dict
+from common import encode_container, decode_container_as_dict
 from common import CCPP_STAGES, CCPP_INTERNAL_VARIABLES, CCPP_STATIC_API_MODULE, CCPP_INTERNAL_VARIABLE_DEFINITON_FILE
 from common import STANDARD_VARIABLE_TYPES, STANDARD_INTEGER_TYPE, CCPP_TYPE
 from common import CCPP_T_INSTANCE_VARIABLE
@@ -391,8 +391,7 @@ def filter_metadata(metadata, arguments, dependencies, schemes_in_files, suites)
     for var_name in sorted(metadata.keys()):
         keep = False
         for var in metadata[var_name][:]:
-            container_string = decode_container(var.container)
-            subroutine = container_string[container_string.find('SUBROUTINE')+len('SUBROUTINE')+1:]
+            subroutine = decode_container_as_dict(var.container)['SUBROUTINE']
             for suite in suites:
                 if subroutine in suite.all_subroutines_called:
                     keep = True
-- 
2.43.0


From 12a010b0f75e660c658eb29417eb5d75b13e54d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:16 +0000
Subject: [PATCH 68/89] fix: Repair missing or damaged file lists in prebuild

---
 scripts/ccpp_prebuild.py | 62 +++++++++++-----------------------------
 1 file changed, 17 insertions(+), 45 deletions(-)

diff --git a/scripts/ccpp_prebuild.py b/scripts/ccpp_prebuild.py
index 1dc527a..48a6aa1 100755
--- a/scripts/ccpp_prebuild.py
+++ b/scripts/ccpp_prebuild.py
@@ -589,6 +589,14 @@ def generate_static_api(suites, static_api_dir, namespace):
     os.chdir(BASEDIR)
     return (success, api)
 
+def replace_if_different(new_filename, filename):
+    """Move <new_filename> to <filename> unless the contents of the two files
+    are the same (in which case <new_filename> is removed and <filename> is kept)."""
+    if os.path.isfile(filename) and filecmp.cmp(filename, new_filename, shallow=False):
+        os.remove(new_filename)
+    else:
+        os.replace(new_filename, filename)
+
 def generate_typedefs_makefile(metadata_define, typedefs_makefile, typedefs_cmakefile, typedefs_sourcefile):
     """Generate list of Fortran modules containing CCPP type/kind definitions,
        and create makefile/cmakefile snippets for host model build system"""
@@ -645,21 +653,9 @@ def generate_typedefs_makefile(metadata_define, typedefs_makefile, typedefs_cmak
     makefile.write(typedefs)
     cmakefile.write(typedefs)
     sourcefile.write(typedefs)
-    if os.path.isfile(typedefs_makefile) and \
-            filecmp.cmp(typedefs_makefile, makefile.filename):
-        os.remove(makefile.filename)
-        os.remove(cmakefile.filename)
-        os.remove(sourcefile.filename)
-    else:
-        if os.path.isfile(typedefs_makefile):
-            os.remove(typedefs_makefile)
-        if os.path.isfile(typedefs_cmakefile):
-            os.remove(typedefs_cmakefile)
-        if os.path.isfile(typedefs_sourcefile):
-            os.remove(typedefs_sourcefile)
-        os.rename(makefile.filename, typedefs_makefile)
-        os.rename(cmakefile.filename, typedefs_cmakefile)
-        os.rename(sourcefile.filename, typedefs_sourcefile)
+    replace_if_different(makefile.filename, typedefs_makefile)
+    replace_if_different(cmakefile.filename, typedefs_cmakefile)
+    replace_if_different(sourcefile.filename, typedefs_sourcefile)
     #
     logging.info('Added {0} typedefs to {1}, {2}, {3}'.format(
            len(typedefs), typedefs_makefile, typedefs_cmakefile, typedefs_sourcefile))
@@ -682,21 +678,9 @@ def generate_schemes_makefile(schemes, schemes_makefile, schemes_cmakefile, sche
     makefile.write(schemes_with_abspath)
     cmakefile.write(schemes_with_abspath)
     sourcefile.write(schemes_with_abspath)
-    if os.path.isfile(schemes_makefile) and \
-            filecmp.cmp(schemes_makefile, makefile.filename):
-        os.remove(makefile.filename)
-        os.remove(cmakefile.filename)
-        os.remove(sourcefile.filename)
-    else:
-        if os.path.isfile(schemes_makefile):
-            os.remove(schemes_makefile)
-        if os.path.isfile(schemes_cmakefile):
-            os.remove(schemes_cmakefile)
-        if os.path.isfile(schemes_sourcefile):
-            os.remove(schemes_sourcefile)
-        os.rename(makefile.filename, schemes_makefile)
-        os.rename(cmakefile.filename, schemes_cmakefile)
-        os.rename(sourcefile.filename, schemes_sourcefile)
+    replace_if_different(makefile.filename, schemes_makefile)
+    replace_if_different(cmakefile.filename, schemes_cmakefile)
+    replace_if_different(sourcefile.filename, schemes_sourcefile)
     #
     logging.info('Added {0} schemes to {1}, {2}, {3}'.format(
            len(schemes_with_abspath), schemes_makefile, schemes_cmakefile, schemes_sourcefile))
@@ -719,21 +703,9 @@ def generate_caps_makefile(caps, caps_makefile, caps_cmakefile, caps_sourcefile,
     makefile.write(caps_with_abspath)
     cmakefile.write(caps_with_abspath)
     sourcefile.write(caps_with_abspath)
-    if os.path.isfile(caps_makefile) and \
-            filecmp.cmp(caps_makefile, makefile.filename):
-        os.remove(makefile.filename)
-        os.remove(cmakefile.filename)
-        os.remove(sourcefile.filename)
-    else:
-        if os.path.isfile(caps_makefile):
-            os.remove(caps_makefile)
-        if os.path.isfile(caps_cmakefile):
-            os.remove(caps_cmakefile)
-        if os.path.isfile(caps_sourcefile):
-            os.remove(caps_sourcefile)
-        os.rename(makefile.filename, caps_makefile)
-        os.rename(cmakefile.filename, caps_cmakefile)
-        os.rename(sourcefile.filename, caps_sourcefile)
+    replace_if_different(makefile.filename, caps_makefile)
+    replace_if_different(cmakefile.filename, caps_cmakefile)
+    replace_if_different(sourcefile.filename, caps_sourcefile)
     #
     logging.info('Added {0} auto-generated caps to {1} and {2}, {3}'.format(
            len(caps_with_abspath), caps_makefile, caps_cmakefile, caps_sourcefile))
-- 
2.43.0


From 84f65d5124dc9e7ca0a32f82396fd0d826548e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:01 +0000
Subject: [PATCH 69/89] fix: Variables with different vertical orientations are
 not equivalent

---
 scripts/var_props.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/var_props.py b/scripts/var_props.py
index 5d8438e..4e90c71 100755
--- a/scripts/var_props.py
+++ b/scripts/var_props.py
@@ -985,7 +985,7 @@ class VarCompatObj:
         if self.__compat:
             # Check for vertical array flipping (do later)
             if var1_top != var2_top:
-                self.__compat            = True
+                self.__equiv             = False
                 self.has_vert_transforms = True
             # end if
         # end if
-- 
2.43.0


From f4fcd098785ed36e17465f2a6b711d2f1d52e63e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:01 +0000
Subject: [PATCH 70/89] fix: Compare the dimensions of variables without
 horizontal dimension

---
 scripts/var_props.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/scripts/var_props.py b/scripts/var_props.py
index 4e90c71..0000e89 100755
--- a/scripts/var_props.py
+++ b/scripts/var_props.py
@@ -323,30 +323,26 @@ class DimTransform:
         # end if
         self.__forward_perm = forward_permutation
         self.__reverse_perm = reverse_permutation
-        if ((forward_hdim_index < 0) or
-            (forward_hdim_index >= len(forward_permutation))):
+        # We cannot test for negative <x>_hdim_index or <x>_vdim_index because
+        #     there may not be a horizontal or vertical dimension
+        if forward_hdim_index >= len(forward_permutation):
             emsg = "forward_hdim_index ({}) out of range [0, {}]"
             raise ParseInternalError(emsg.format(forward_hdim_index,
                                                  len(forward_permutation)-1))
         # end if
         self.__forward_hdim_index = forward_hdim_index
-        # We cannot test for negative forward_vdim_index because there may
-        #     not be a vertical dimension
         if forward_vdim_index >= len(forward_permutation):
             emsg = "forward_vdim_index ({}) out of range [0, {}]"
             raise ParseInternalError(emsg.format(forward_vdim_index,
                                                  len(forward_permutation)-1))
         # end if
         self.__forward_vdim_index = forward_vdim_index
-        if ((reverse_hdim_index < 0) or
-            (reverse_hdim_index >= len(reverse_permutation))):
+        if reverse_hdim_index >= len(reverse_permutation):
             emsg = "reverse_hdim_index ({}) out of range [0, {}]"
             raise ParseInternalError(emsg.format(reverse_hdim_index,
                                                  len(reverse_permutation)-1))
         # end if
         self.__reverse_hdim_index = reverse_hdim_index
-        # We cannot test for negative reverse_vdim_index because there may
-        #     not be a vertical dimension
         if reverse_vdim_index >= len(reverse_permutation):
             emsg = "reverse_vdim_index ({}) out of range [0, {}]"
             raise ParseInternalError(emsg.format(reverse_vdim_index,
@@ -359,13 +355,13 @@ class DimTransform:
         #    extent, "horizontal_dimension" begin at "horizontal_loop_begin"
         #    during the run phase.
         self.__v1_hloop = self.__is_horizontal_loop_dimension(forward_hdim)
-        if ((not self.__v1_hloop) and
+        if ((not self.__v1_hloop) and (forward_hdim_index >= 0) and
             (not ("horizontal_dimension" in forward_hdim))):
             emsg = "Uncategorized forward horizontal dimension, '{}'"
             raise ParseInternalError(emsg.format(forward_hdim))
         # end if
         self.__v2_hloop = self.__is_horizontal_loop_dimension(reverse_hdim)
-        if ((not self.__v2_hloop) and
+        if ((not self.__v2_hloop) and (reverse_hdim_index >= 0) and
             (not ("horizontal_dimension" in reverse_hdim))):
             emsg = "Uncategorized reverse horizontal dimension, '{}'"
             raise ParseInternalError(emsg.format(reverse_hdim))
-- 
2.43.0


From c4381689c5cff37e33a61e84db3007ebd814b4ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:01 +0000
Subject: [PATCH 71/89] fix: Adjust the right index in transforms with permuted
 dimensions

---
 scripts/var_props.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/scripts/var_props.py b/scripts/var_props.py
index 0000e89..024147e 100755
--- a/scripts/var_props.py
+++ b/scripts/var_props.py
@@ -418,19 +418,19 @@ class DimTransform:
         v2_indices = [indices[x] for x in self.__forward_perm]
         if adjust_hdim is not None:
             if self.__v1_hloop and (not self.__v2_hloop):
-                hdim = v2_indices[self.__forward_hdim_index]
+                hdim = v2_indices[self.__reverse_hdim_index]
                 adj_str = f"{hdim}+{adjust_hdim}-1"
-                v2_indices[self.__forward_hdim_index] = adj_str
+                v2_indices[self.__reverse_hdim_index] = adj_str
             elif self.__v2_hloop and (not self.__v1_hloop):
-                hdim = v2_indices[self.__forward_hdim_index]
+                hdim = v2_indices[self.__reverse_hdim_index]
                 adj_str = f"{hdim}-{adjust_hdim}+1"
-                v2_indices[self.__forward_hdim_index] = adj_str
+                v2_indices[self.__reverse_hdim_index] = adj_str
             # end if
         # end if
         if flip_vdim is not None:
-            vdim = v2_indices[self.__forward_vdim_index]
+            vdim = v2_indices[self.__reverse_vdim_index]
             adj_str = f"{flip_vdim}-{vdim}+1"
-            v2_indices[self.__forward_vdim_index] = adj_str
+            v2_indices[self.__reverse_vdim_index] = adj_str
         # end if
         return f"{var2_lname}({','.join(v2_indices)})"
 
@@ -485,19 +485,19 @@ class DimTransform:
         v1_indices = [indices[x] for x in self.__reverse_perm]
         if adjust_hdim is not None:
             if self.__v1_hloop and (not self.__v2_hloop):
-                hdim = v1_indices[self.__reverse_hdim_index]
+                hdim = v1_indices[self.__forward_hdim_index]
                 adj_str = f"{hdim}-{adjust_hdim}+1"
-                v1_indices[self.__reverse_hdim_index] = adj_str
+                v1_indices[self.__forward_hdim_index] = adj_str
             elif self.__v2_hloop and (not self.__v1_hloop):
-                hdim = v1_indices[self.__reverse_hdim_index]
+                hdim = v1_indices[self.__forward_hdim_index]
                 adj_str = f"{hdim}+{adjust_hdim}-1"
-                v1_indices[self.__reverse_hdim_index] = adj_str
+                v1_indices[self.__forward_hdim_index] = adj_str
             # end if
         # end if
         if flip_vdim is not None:
-            vdim = v1_indices[self.__reverse_vdim_index]
+            vdim = v1_indices[self.__forward_vdim_index]
             adj_str = f"{flip_vdim}-{vdim}+1"
-            v1_indices[self.__reverse_vdim_index] = adj_str
+            v1_indices[self.__forward_vdim_index] = adj_str
         # end if
         return f"{var1_lname}({','.join(v1_indices)})"
 
-- 
2.43.0


From 0016a6ada9114fbbd32dbf3f322b82892ff2e038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:19 +0000
Subject: [PATCH 72/89] fix: Keep the local names of a variable dictionary up
 to date

---
 scripts/metavar.py | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/scripts/metavar.py b/scripts/metavar.py
index 7b8d179..b557a21 100755
--- a/scripts/metavar.py
+++ b/scripts/metavar.py
@@ -1586,6 +1586,7 @@ class VarDictionary(OrderedDict):
         elif isinstance(variables, VarDictionary):
             for stdname in variables.keys():
                 self[stdname] = variables[stdname]
+                self.__register_local_name(self[stdname])
             # end for
         elif isinstance(variables, dict):
             # variables may not be in 'order', but we accept them anyway
@@ -1593,6 +1594,7 @@ class VarDictionary(OrderedDict):
                 var = variables[key]
                 stdname = var.get_prop_value('standard_name')
                 self[stdname] = variables[key]
+                self.__register_local_name(self[stdname])
             # end for
         elif variables is not None:
             raise ParseInternalError(f'Illegal type for variables, {type_name(variables)} in {self.name}')
@@ -1738,10 +1740,14 @@ class VarDictionary(OrderedDict):
         # If we make it to here without an exception, add the variable
         if standard_name not in self:
             self[standard_name] = newvar
+            self.__register_local_name(newvar)
         # end if
-        lname = lname.lower()
+
+    def __register_local_name(self, var):
+        """Record the local name of <var> as being in use"""
+        lname = var.get_prop_value('local_name').lower()
         if lname not in self.__local_names:
-            self.__local_names[lname] = standard_name
+            self.__local_names[lname] = var.get_prop_value('standard_name')
         # end if
 
     def remove_variable(self, standard_name):
@@ -1750,9 +1756,10 @@ class VarDictionary(OrderedDict):
         """
         if standard_name in self:
             del self[standard_name]
-            self.__local_names = {lname : sname for lname, sname
-                                  in self.__local_names.items()
-                                  if sname != standard_name}
+            self.__local_names = {}
+            for var in self.values():
+                self.__register_local_name(var)
+            # end for
         # end if
 
     def add_variable_dimensions(self, var, ignore_sources, to_dict=None,
@@ -2120,10 +2127,10 @@ class VarDictionary(OrderedDict):
         if lname.lower() in used:
             new_lname = self.new_internal_variable_name(prefix=lname, used=used)
             self[standard_name] = self[standard_name].clone(new_lname)
-            self.__local_names = {name : sname for name, sname
-                                  in self.__local_names.items()
-                                  if sname != standard_name}
-            self.__local_names[new_lname.lower()] = standard_name
+            self.__local_names = {}
+            for var in self.values():
+                self.__register_local_name(var)
+            # end for
         # end if
 
     def new_internal_variable_name(self, prefix=None, max_len=63, used=()):
-- 
2.43.0


From cccef77d82163a8db0b5b4db7e67ca2753f32d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:19 +0000
Subject: [PATCH 73/89] fix: Add the requested clone to the dictionary that was
 asked

---
 scripts/metavar.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/metavar.py b/scripts/metavar.py
index b557a21..914917f 100755
--- a/scripts/metavar.py
+++ b/scripts/metavar.py
@@ -1851,16 +1851,16 @@ class VarDictionary(OrderedDict):
             var = self.__parent_dict.find_variable(standard_name=standard_name,
                                                    source_var=source_var,
                                                    any_scope=any_scope,
-                                                   clone=clone,
                                                    search_call_list=src_clist,
                                                    loop_subst=loop_subst)
         else:
             var = None
         # end if
         if (var is None) and (clone is not None):
-            lname = clone.get_prop_value['local_name']
+            lname = clone.get_prop_value('local_name')
             new_name = self.new_internal_variable_name(prefix=lname)
             var = clone.clone(new_name)
+            self.add_variable(var, self.__run_env)
         # end if
         return var
 
-- 
2.43.0


From 078acb6be8d303ca99142264131abbe93b5aeecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:19 +0000
Subject: [PATCH 74/89] fix: Collect only the run-time constituents of the
 registered suite

---
 scripts/host_cap.py | 47 +++++++++++++++++++++++----------------------
 1 file changed, 24 insertions(+), 23 deletions(-)

diff --git a/scripts/host_cap.py b/scripts/host_cap.py
index e663140..eb3d155 100644
--- a/scripts/host_cap.py
+++ b/scripts/host_cap.py
@@ -605,7 +605,9 @@ def write_host_cap(host_model, api, module_name, output_dir, run_env):
             # Create a dict of local variables for stage
             host_local_vars = VarDictionary(f"{host_model.name}_{stage}",
                                             run_env)
-            has_dyn_consts = False
+            # Names of the run-time constituent arrays returned by each suite
+            dyn_const_args = {suite.name : [] for suite in api.suites}
+            dyn_const_locals = set()
             # Create part call lists
             # Look for any loop-variable mismatch
             for suite in api.suites:
@@ -617,13 +619,21 @@ def write_host_cap(host_model, api, module_name, output_dir, run_env):
                         # Special handling for run-time constituents in register phase
                         if sp_var.get_prop_value('type') == 'ccpp_constituent_properties_t':
                             if spart.phase() == 'register':
-                                prop_dict = {'standard_name' : sp_var.get_prop_value('standard_name'),
-                                             'local_name' : sp_var.get_prop_value('local_name'),
-                                             'dimensions' : '(:)', 'units' : 'none',
-                                             'allocatable' : True, 'ddt_type' : 'ccpp_constituent_properties_t'}
-                                newvar = Var(prop_dict, _API_SOURCE, run_env)
-                                host_local_vars.add_variable(newvar, run_env)
-                                has_dyn_consts = True
+                                lname = sp_var.get_prop_value('local_name')
+                                dyn_const_args[suite.name].append(lname)
+                                # The suites share these arrays, each suite
+                                #   returns them to the unallocated state.
+                                if lname.lower() not in dyn_const_locals:
+                                    sname = f"unused_constituents_{lname.lower()}"
+                                    prop_dict = {'standard_name' : sname,
+                                                 'local_name' : lname,
+                                                 'dimensions' : '(:)', 'units' : 'none',
+                                                 'allocatable' : True,
+                                                 'ddt_type' : 'ccpp_constituent_properties_t'}
+                                    newvar = Var(prop_dict, _API_SOURCE, run_env)
+                                    host_local_vars.add_variable(newvar, run_env)
+                                    dyn_const_locals.add(lname.lower())
+                                # end if
                                 continue
                             else:
                                 errmsg = f'ccpp_constituent_properties_t object "{stdname}" not allowed in "{spart.phase()}" phase'
@@ -639,7 +649,7 @@ def write_host_cap(host_model, api, module_name, output_dir, run_env):
                     # End for (loop over part variables)
                 # End for (loop of suite parts)
             # End for (loop over suites)
-            if has_dyn_consts:
+            if dyn_const_locals:
                 prop_dict = {'standard_name' : 'unused_count',
                              'local_name' : 'num_dyn_consts',
                              'dimensions' : '()', 'units' : 'count',
@@ -749,14 +759,10 @@ def write_host_cap(host_model, api, module_name, output_dir, run_env):
                     cap.write("end if", 3)
                     # Allocate the suite's dynamic constituents array
                     size_string = "0+"
-                    for var in host_local_vars.variable_list():
-                        vtype = var.get_prop_value('type')
-                        if vtype == 'ccpp_constituent_properties_t':
-                            local_name = var.get_prop_value('local_name')
-                            size_string += f"size({local_name})+"
-                        # end if
+                    for local_name in dyn_const_args[suite.name]:
+                        size_string += f"size({local_name})+"
                     # end for
-                    if not has_dyn_consts:
+                    if not dyn_const_args[suite.name]:
                         cap.comment("Suite does not return dynamic constituents; allocate to zero", 3)
                     # end if
                     # The register phase may be called again
@@ -764,15 +770,10 @@ def write_host_cap(host_model, api, module_name, output_dir, run_env):
                     cap.write(f"deallocate({dyn_const_array})", 4)
                     cap.write("end if", 3)
                     cap.write(f"allocate({dyn_const_array}({size_string[:-1]}))", 3)
-                    if has_dyn_consts:
+                    if dyn_const_args[suite.name]:
                         cap.comment("Pack the suite-level dynamic, run-time constituents array", 3)
                         cap.write("num_dyn_consts = 0", 3)
-                    for var in host_local_vars.variable_list():
-                        vtype = var.get_prop_value('type')
-                        if vtype != 'ccpp_constituent_properties_t':
-                            continue
-                        # end if
-                        local_name = var.get_prop_value('local_name')
+                    for local_name in dyn_const_args[suite.name]:
                         cap.write(f"do const_index = 1, size({local_name})", 3)
                         cap.write(f"{dyn_const_array}(num_dyn_consts + const_index) = {local_name}(const_index)", 4)
                         cap.write("end do", 3)
-- 
2.43.0


From 12f87b247067106f567b4257375a2d9faf17d498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:19 +0000
Subject: [PATCH 75/89] fix: Register copies of the host and run-time
 constituents

---
 scripts/constituents.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/scripts/constituents.py b/scripts/constituents.py
index a8c1114..4bf90d5 100644
--- a/scripts/constituents.py
+++ b/scripts/constituents.py
@@ -525,7 +525,13 @@ class ConstituentVarDict(VarDictionary):
         # Register host model constituents
         cap.comment("Add host model constituent metadata", 2)
         cap.write("do index = 1, size(host_constituents, 1)", 2)
-        cap.write("const_prop => host_constituents(index)", 3)
+        # The constituent object owns (and deallocates) its fields: add a copy
+        cap.write(f"allocate(const_prop, stat={herrcode})", 3)
+        cap.write(f"if ({herrcode} /= 0) then", 3)
+        cap.write(f'{herrmsg} = "ERROR allocating const_prop"', 4)
+        cap.write("return", 4)
+        cap.write("end if", 3)
+        cap.write("const_prop = host_constituents(index)", 3)
         stmt = f"call {const_obj_name}%new_field(const_prop, {obj_err_callstr})"
         cap.write(stmt, 3)
         cap.write("nullify(const_prop)", 3)
@@ -538,7 +544,12 @@ class ConstituentVarDict(VarDictionary):
         cap.comment("Add dynamic constituent properties", 2)
         for dyn_const in dyn_const_names:
            cap.write(f"do index = 1, size({dyn_const}, 1)", 2)
-           cap.write(f"const_prop => {dyn_const}(index)", 3)
+           cap.write(f"allocate(const_prop, stat={herrcode})", 3)
+           cap.write(f"if ({herrcode} /= 0) then", 3)
+           cap.write(f'{herrmsg} = "ERROR allocating const_prop"', 4)
+           cap.write("return", 4)
+           cap.write("end if", 3)
+           cap.write(f"const_prop = {dyn_const}(index)", 3)
            stmt = f"call {const_obj_name}%new_field(const_prop, {obj_err_callstr})"
            cap.write(stmt, 3)
            cap.write("nullify(const_prop)", 3)
-- 
2.43.0


From 07be729b37b0b752877ff6c3566518b7fc320189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:19 +0000
Subject: [PATCH 76/89] fix: Pass the molar mass of a constituent to its
 properties

---
 scripts/constituents.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/scripts/constituents.py b/scripts/constituents.py
index 4bf90d5..e01f1ea 100644
--- a/scripts/constituents.py
+++ b/scripts/constituents.py
@@ -303,6 +303,7 @@ class ConstituentVarDict(VarDictionary):
             units = var.get_prop_value('units')
             dims = var.get_dim_stdnames()
             default_value = var.get_prop_value('default_value')
+            molar_mass = var.get_prop_value('molar_mass')
             if 'vertical_layer_dimension' in dims:
                 vertical_dim = 'vertical_layer_dimension'
             elif 'vertical_interface_dimension' in dims:
@@ -318,6 +319,10 @@ class ConstituentVarDict(VarDictionary):
                          f'errmsg={errvar_names["ccpp_error_message"]}']
             if default_value is not None and default_value != '':
                 init_args.append(f'default_value={default_value}')
+            # end if
+            if molar_mass:
+                init_args.append(f'molar_mass={molar_mass}_kind_phys')
+            # end if
             stmt = f'call {self.constituent_prop_array_name()}(index)%instantiate({", ".join(init_args)})'
             outfile.write(f'if ({errvar_names["ccpp_error_code"]} == 0) then', indent+1)
             outfile.write(stmt, indent+2)
-- 
2.43.0


From 633d54b8cd6bd6441e9cc91d5809e9edae3d8de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:37:14 +0000
Subject: [PATCH 77/89] fix: Expand input file lists below directories with
 wildcard characters in their names

---
 scripts/file_utils.py | 48 ++++++++++++++++++++++---------------------
 1 file changed, 25 insertions(+), 23 deletions(-)

diff --git a/scripts/file_utils.py b/scripts/file_utils.py
index 4ddeb49..89a341f 100644
--- a/scripts/file_utils.py
+++ b/scripts/file_utils.py
@@ -51,19 +51,28 @@ def check_for_writeable_file(filename, description):
     # end if (else just return)
 
 ###############################################################################
-def add_unique_files(filepath, pdesc, master_list, logger):
+def expand_pathname(pathname, root_path):
 ###############################################################################
-    """Add any new files indicated by <filepath> to <master_list>.
+    """Return the sorted list of normalized, absolute pathnames indicated by
+    <pathname>. A relative <pathname> is relative to <root_path>.
+    Wildcards in <pathname> are expanded unless there is a file or directory
+    of that name. Without wildcards, <pathname> does not have to exist."""
+    filepath = os.path.normpath(os.path.join(root_path, pathname))
+    if os.path.exists(filepath) or (not glob.has_magic(pathname)):
+        return [filepath]
+    # end if
+    # Only the wildcards in <pathname> are wildcards
+    pattern = os.path.join(glob.escape(root_path), pathname)
+    return sorted({os.path.normpath(x) for x in glob.glob(pattern)})
+
+###############################################################################
+def add_unique_files(files, pdesc, master_list, logger):
+###############################################################################
+    """Add any new files in <files> to <master_list>.
     Check each file for readability.
     Log duplicate files
-    Return a list of errors found
-    Wildcards in <filepath> are expanded"""
+    Return a list of errors found"""
     errors = list()
-    files = sorted(glob.glob(filepath))
-    if (not files) and (not glob.has_magic(filepath)):
-        # The pathname of a single file, it will be reported if it is missing
-        files = [filepath]
-    # end if
     for file in files:
         errs = check_for_existing_file(file, pdesc)
         if errs:
@@ -81,11 +90,9 @@ def add_unique_files(filepath, pdesc, master_list, logger):
 def read_pathnames_from_file(pathsfile, file_type):
 ###############################################################################
     """Read and return path names from <pathsfile>.
-    Convert relative pathnames to use <pathsfile>'s directory as root.
+    Relative pathnames are relative to <pathsfile>'s directory.
     Also return a list of any errors encountered
     """
-    # We want to end up with absolute paths, treat <pathsfile> as root location
-    root_path = os.path.dirname(os.path.abspath(pathsfile))
     file_list = list()
     pdesc = '{} pathsnames file'.format(file_type)
     errors = check_for_existing_file(pathsfile, pdesc)
@@ -96,10 +103,6 @@ def read_pathnames_from_file(pathsfile, file_type):
                 path = line.strip()
                 # Skip blank lines & lines which appear to start with a comment.
                 if path and (path[0] not in ['#', '!']):
-                    # Check for an absolute path
-                    if not os.path.isabs(path):
-                        path = os.path.normpath(os.path.join(root_path, path))
-                    # end if
                     file_list.append(path)
                 # end if (else skip blank or comment line)
             # end for
@@ -141,20 +144,19 @@ def _create_file_list_int(files, suffices, file_type, logger,
         if suff:
             suff = suff[1:]
         # end if
-        if not os.path.isabs(filename):
-            filename = os.path.normpath(os.path.join(root_path, filename))
-        # end if
+        pathnames = expand_pathname(filename, root_path)
+        filename = os.path.normpath(os.path.join(root_path, filename))
         if os.path.isdir(filename):
             for suff_type in suffices:
-                file_type = os.path.join(filename, '*.{}'.format(suff_type))
-                errs = add_unique_files(file_type, pdesc, master_list, logger)
+                dfiles = expand_pathname('*.{}'.format(suff_type), filename)
+                errs = add_unique_files(dfiles, pdesc, master_list, logger)
                 errors.extend(errs)
             # end for
         elif suff in suffices:
-            errs = add_unique_files(filename, pdesc, master_list, logger)
+            errs = add_unique_files(pathnames, pdesc, master_list, logger)
             errors.extend(errs)
         elif suff == 'txt':
-            tfiles = sorted(glob.glob(filename))
+            tfiles = [x for x in pathnames if os.path.exists(x)]
             if tfiles:
                 for file in tfiles:
                     if file in txt_files:
-- 
2.43.0


From bb997089aaa7f106037572bc0b1125b5e2df05d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:41:50 +0000
Subject: [PATCH 78/89] fix: Escape special characters in the metadata
 documentation

---
 scripts/common.py         |  9 +++++----
 scripts/metadata_table.py |  3 ++-
 scripts/mkdoc.py          | 31 +++++++++++++++++++------------
 3 files changed, 26 insertions(+), 17 deletions(-)

diff --git a/scripts/common.py b/scripts/common.py
index f5ba7f1..4ae35b2 100755
--- a/scripts/common.py
+++ b/scripts/common.py
@@ -168,10 +168,11 @@ def decode_container_as_dict(container):
 
 def escape_tex(text):
     """Substitutes characters for generating LaTeX sources files from Python."""
-    return text.replace(
-                '%', '\%').replace(
-                '_', '\_').replace(
-                '&', '\&')
+    special = {'\\' : r'\textbackslash{}',
+               '~'  : r'\textasciitilde{}',
+               '^'  : r'\textasciicircum{}'}
+    return re.sub(r'[\\~^%_&#${}]',
+                  lambda m: special.get(m.group(0), '\\' + m.group(0)), text)
 
 def isstring(s):
     """Return true if a variable is a string"""
diff --git a/scripts/metadata_table.py b/scripts/metadata_table.py
index 4fd75bd..7b0b1de 100755
--- a/scripts/metadata_table.py
+++ b/scripts/metadata_table.py
@@ -126,6 +126,7 @@ Notes on the input format:
 
 # Python library imports
 import difflib
+import html
 import logging
 import os.path
 import re
@@ -1275,7 +1276,7 @@ class MetadataSection(ParseSource):
                     value = '(' + ', '.join(value) + ')'
                 elif value is None:
                     value = f"n/a"
-                row += f"<td>{value}</td>".format(value=value)
+                row += f"<td>{html.escape(str(value))}</td>"
             row += f"</tr>\n"
             contents += row
         filename = os.path.join(outdir, self.title + '.html')
diff --git a/scripts/mkdoc.py b/scripts/mkdoc.py
index 018f88f..a66a7ad 100755
--- a/scripts/mkdoc.py
+++ b/scripts/mkdoc.py
@@ -7,10 +7,11 @@
 # DH* TODO: create a Python module metadata.py with a class Metadata
 # and use this for ccpp_prebuild.py; create to_html and to_latex routines for it
 
+from html import escape
 import logging
 import os
 
-from common import decode_container, escape_tex
+from common import decode_container, decode_container_as_dict, escape_tex
 
 ###############################################################################
 
@@ -49,15 +50,23 @@ def metadata_to_html(metadata, model, filename):
             count = (count+1) % 2
             # ... create html row ...
             line = '''<tr>
-  <td bgcolor="{bgcolor}" align="left" >{v.standard_name}</td>
-  <td bgcolor="{bgcolor}" align="left" >{v.long_name}    </td>
-  <td bgcolor="{bgcolor}" align="left" >{v.units}        </td>
+  <td bgcolor="{bgcolor}" align="left" >{standard_name}</td>
+  <td bgcolor="{bgcolor}" align="left" >{long_name}    </td>
+  <td bgcolor="{bgcolor}" align="left" >{units}        </td>
   <td bgcolor="{bgcolor}" align="right">{rank}           </td>
-  <td bgcolor="{bgcolor}" align="left" >{v.type}         </td>
-  <td bgcolor="{bgcolor}" align="left" >{v.kind}         </td>
+  <td bgcolor="{bgcolor}" align="left" >{type}         </td>
+  <td bgcolor="{bgcolor}" align="left" >{kind}         </td>
   <td bgcolor="{bgcolor}" align="left" >{container}      </td>
-  <td bgcolor="{bgcolor}" align="left" >{v.local_name}   </td>
-</tr>'''.format(v=var, rank=var.rank.count(':'), container = decode_container(var.container), bgcolor=shading[count])
+  <td bgcolor="{bgcolor}" align="left" >{local_name}   </td>
+</tr>'''.format(standard_name=escape(var.standard_name),
+                 long_name=escape(var.long_name),
+                 units=escape(var.units),
+                 rank=var.rank.count(':'),
+                 type=escape(var.type),
+                 kind=escape(var.kind),
+                 container=escape(decode_container(var.container)),
+                 local_name=escape(var.local_name),
+                 bgcolor=shading[count])
             html += line
 
     # Footer
@@ -127,11 +136,9 @@ def metadata_to_latex(metadata_define, metadata_request, model, filename):
             target = 'MISSING'
             local_name = 'MISSING'
         if var_name in metadata_request.keys():
-            requested_list = [ escape_tex(decode_container(v.container)) if v.container else 'none' for v in metadata_request[var_name] ]
             # for the purpose of the table, just output the name of the subroutine
-            for i in range(len(requested_list)):
-                entry = requested_list[i]
-                requested_list[i] = entry[entry.find('SUBROUTINE')+len('SUBROUTINE')+1:]
+            requested_list = [ escape_tex(decode_container_as_dict(v.container)['SUBROUTINE']) if v.container else 'none'
+                               for v in metadata_request[var_name] ]
             requested = '\\newline '.join(sorted(requested_list))
         else:
             requested = 'NOT REQUESTED'
-- 
2.43.0


From f7bf5799146cfeef74aa72bd7d4513fb1d516ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:46:20 +0000
Subject: [PATCH 79/89] fix: Ignore letter case in the names of kind options

---
 scripts/framework_env.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/scripts/framework_env.py b/scripts/framework_env.py
index 88c9c20..4750384 100644
--- a/scripts/framework_env.py
+++ b/scripts/framework_env.py
@@ -161,7 +161,8 @@ class CCPPFrameworkEnv:
             else:
                 kind_name, kind_spec = kargs
                 # Do not worry about duplicates, just use last value
-                self.__kind_dict[kind_name] = kind_spec
+                # Kinds are Fortran names, letter case is not significant
+                self.__kind_dict[kind_name.lower()] = kind_spec
             # end if
         # end for
         # We always need a kind_phys so add a default if necessary
@@ -274,8 +275,10 @@ class CCPPFrameworkEnv:
         for this CCPPFrameworkEnv object.
         If there is no entry for <kind_type>, return None."""
         kind_spec = None
-        if kind_type in self.__kind_dict:
-            kind_spec = self.__kind_dict[kind_type]
+        # <kind_type> can be None
+        kind_name = kind_type.lower() if kind_type else kind_type
+        if kind_name in self.__kind_dict:
+            kind_spec = self.__kind_dict[kind_name]
         # end if
         return kind_spec
 
-- 
2.43.0


From fcbc1c8c1daddf5112f0bf081fbb3007244cbea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:49:59 +0000
Subject: [PATCH 80/89] fix: Make metadata2html run without a special Python
 path

---
 scripts/metadata2html.py        | 2 +-
 scripts/parse_tools/__init__.py | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/scripts/metadata2html.py b/scripts/metadata2html.py
index 7e4a540..b8257e1 100755
--- a/scripts/metadata2html.py
+++ b/scripts/metadata2html.py
@@ -8,8 +8,8 @@ import sys
 
 # CCPP framework imports
 from common import CCPP_INTERNAL_VARIABLE_DEFINITON_FILE
-from parse_checkers import registered_fortran_ddt_names
 from parse_tools import init_log, set_log_level
+from parse_tools import registered_fortran_ddt_names
 from metadata_table import MetadataTable, parse_metadata_file
 from framework_env import CCPPFrameworkEnv
 
diff --git a/scripts/parse_tools/__init__.py b/scripts/parse_tools/__init__.py
index 309bbda..743c088 100644
--- a/scripts/parse_tools/__init__.py
+++ b/scripts/parse_tools/__init__.py
@@ -20,6 +20,7 @@ from parse_checkers import check_diagnostic_id, check_diagnostic_fixed
 from parse_checkers import check_fortran_type, check_balanced_paren
 from parse_checkers import fortran_list_match
 from parse_checkers import registered_fortran_ddt_name
+from parse_checkers import registered_fortran_ddt_names
 from parse_checkers import register_fortran_ddt_name
 from parse_checkers import check_units, check_dimensions, check_cf_standard_name
 from parse_checkers import check_default_value, check_valid_values, check_molar_mass
@@ -68,6 +69,7 @@ __all__ = [
     'register_fortran_ddt_name',
     'read_xml_file',
     'registered_fortran_ddt_name',
+    'registered_fortran_ddt_names',
     'reset_standard_name_counter',
     'set_log_level',
     'set_log_to_file',
-- 
2.43.0


From c90b5eb424ba6df1da7e17ebf2c1f28bbf891015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:10:43 +0000
Subject: [PATCH 81/89] fix: A tendency must have the units of its constituent
 per second

---
 scripts/var_props.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/scripts/var_props.py b/scripts/var_props.py
index 024147e..f98b739 100755
--- a/scripts/var_props.py
+++ b/scripts/var_props.py
@@ -960,13 +960,18 @@ class VarCompatObj:
             # Check units argument
             if is_tend:
                 # A tendency variable's units should be "<var2_units> s-1"
-                tendency_split_units = var1_units.split('s-1')[0].strip()
-                if tendency_split_units != var2_units:
+                # (or just "s-1" if <var2> has no units)
+                if var2_units in ('1', 'none'):
+                    tend_units = 's-1'
+                else:
+                    tend_units = f"{var2_units} s-1"
+                # end if
+                if var1_units != tend_units:
                     # We don't currently support unit conversions for tendency variables
                     emsg = f"\nMismatch tendency variable units '{var1_units}'"
                     emsg += f" for variable '{var1_stdname}'."
                     emsg += " No variable transforms supported for tendencies."
-                    emsg += f" Tendency units should be '{var2_units} s-1' to match state variable."
+                    emsg += f" Tendency units should be '{tend_units}' to match state variable."
                     self.__equiv = False
                     self.__compat = False
                     incompat_reason.append(emsg)
-- 
2.43.0


From 69231e3327e3439e643cacdb79142d3ffe7b48a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:10:43 +0000
Subject: [PATCH 82/89] fix: Check constituents and tendencies before any cap
 is written and name the variable

---
 scripts/ccpp_capgen.py |   6 +-
 scripts/host_cap.py    | 173 +++++++++++++++++++++--------------------
 2 files changed, 95 insertions(+), 84 deletions(-)

diff --git a/scripts/ccpp_capgen.py b/scripts/ccpp_capgen.py
index b69c7a9..c087ced 100755
--- a/scripts/ccpp_capgen.py
+++ b/scripts/ccpp_capgen.py
@@ -24,7 +24,7 @@ from file_utils import create_file_list, move_modified_files
 from file_utils import KINDS_FILENAME, KINDS_MODULE
 from fortran_tools import parse_fortran_file, FortranWriter
 from framework_env import parse_command_line
-from host_cap import write_host_cap
+from host_cap import constituent_variables, write_host_cap
 from host_model import HostModel
 from metadata_table import parse_metadata_file, SCHEME_HEADER_TYPE
 from metavar import CCPP_CONSTANT_VARS
@@ -736,6 +736,10 @@ def capgen(run_env, return_db=False):
         os.makedirs(outtemp_dir)
     # end if
     ccpp_api = API(sdfs, host_model, scheme_headers, run_env)
+    if run_env.generate_host_cap:
+        # Refuse invalid constituents before any file is written
+        _ = constituent_variables(ccpp_api.suites, run_env)
+    # end if
     cap_filenames = ccpp_api.write(outtemp_dir, run_env)
     if run_env.generate_host_cap:
         # Create a cap file
diff --git a/scripts/host_cap.py b/scripts/host_cap.py
index eb3d155..a0f04f6 100644
--- a/scripts/host_cap.py
+++ b/scripts/host_cap.py
@@ -19,7 +19,7 @@ from metadata_table import MetadataTable
 from metavar import Var, VarDictionary, CCPP_CONSTANT_VARS
 from metavar import CCPP_LOOP_VAR_STDNAMES
 from fortran_tools import FortranWriter
-from parse_tools import CCPPError
+from parse_tools import CCPPError, context_string
 from parse_tools import ParseObject, ParseSource, ParseContext, ParseSyntaxError
 
 ###############################################################################
@@ -267,123 +267,63 @@ def constituent_model_const_index(host_model):
     return unique_local_name(hstr, host_model)
 
 ###############################################################################
-def add_constituent_vars(cap, host_model, suite_list, run_env):
+def constituent_variables(suite_list, run_env):
 ###############################################################################
-    """Create a DDT library containing array reference variables
-    for each constituent field for all suites in <suite_list>.
-    Create and return a dictionary containing an index variable for each of the
-    constituents as well as the variables from the DDT object.
-    Also, write declarations for these variables to <cap>.
-    Since the constituents are in a DDT (ccpp_constituent_properties_t),
-    create a metadata table with the required information, then parse it
-    to create the dictionary.
-    """
-    # First create a MetadataTable for the constituents DDT
-    stdname_layer = "number_of_ccpp_constituents"
-    horiz_dim = "horizontal_dimension"
+    """Return a list of all constituent and constituent tendency variables of
+    the suites in <suite_list> (once per standard name). Each entry is a tuple
+    of the variable and True iff that variable is a tendency.
+    Raise an exception if the framework cannot provide one of them."""
     vert_layer_dim = "vertical_layer_dimension"
     vert_interface_dim = "vertical_interface_dimension"
-    array_layer = "vars_layer"
-    tend_layer = "vars_layer_tend"
-    # Table preamble (leave off ccpp-table-properties header)
-    ddt_mdata = [
-        #"[ccpp-table-properties]",
-        f" name = {CONST_DDT_NAME}", " type = ddt",
-        "[ccpp-arg-table]",
-        f" name = {CONST_DDT_NAME}", " type = ddt",
-        "[ num_layer_vars ]",
-        f" standard_name = {stdname_layer}",
-        " units = count", " dimensions = ()", " type = integer",
-        f"[ {array_layer} ]",
-        " standard_name = ccpp_constituents",
-        " units = none",
-        f" dimensions = ({horiz_dim}, {vert_layer_dim}, {stdname_layer})",
-        " type = real", " kind = kind_phys"]
-    # Add entries for each constituent (once per standard name)
-    const_stdnames = set()
-    tend_stdnames = set()
-    const_vars = set()
-    tend_vars = set()
+    stdnames = set()
+    const_vars = []
     for suite in suite_list:
-        if run_env.verbose:
-            lmsg = "Adding constituents from {} to {}"
-            run_env.logger.debug(lmsg.format(suite.name, host_model.name))
-        # end if
         scdict = suite.constituent_dictionary()
         for cvar in scdict.variable_list():
             std_name = cvar.get_prop_value('standard_name')
-            if std_name not in const_stdnames and std_name not in tend_stdnames:
-                # Add a metadata entry for this constituent
+            if std_name not in stdnames:
                 # Check dimensions and figure vertical dimension
                 # Currently, we only support variables with first dimension,
                 #   horizontal_dimension, and second (optional) dimension,
                 #   vertical_layer_dimension or vertical_interface_dimension
-                is_tend_var = 'tendency_of' in std_name
+                ctx = context_string(cvar.context)
                 dims = cvar.get_dimensions()
                 if (len(dims) < 1) or (len(dims) > 2):
-                    emsg = "Unsupported constituent dimensions, '{}'"
+                    emsg = "Unsupported constituent dimensions, '{}', for '{}'{}"
                     dimstr = "({})".format(", ".join(dims))
-                    raise CCPPError(emsg.format(dimstr))
+                    raise CCPPError(emsg.format(dimstr, std_name, ctx))
                 # end if
                 hdim = dims[0].split(':')[-1]
                 if hdim != 'horizontal_dimension':
                     emsg = "Unsupported first constituent dimension, '{}', "
-                    emsg += "must be 'horizontal_dimension'"
-                    raise CCPPError(emsg.format(hdim))
+                    emsg += "must be 'horizontal_dimension', for '{}'{}"
+                    raise CCPPError(emsg.format(hdim, std_name, ctx))
                 # end if
                 if len(dims) > 1:
                     vdim = dims[1].split(':')[-1]
-                    if vdim == vert_layer_dim:
-                        if is_tend_var:
-                            cvar_array_name = tend_layer
-                        else:
-                            cvar_array_name = array_layer
-                        # end if
-                    else:
+                    if vdim != vert_layer_dim:
                         emsg = "Unsupported vertical constituent dimension, "
-                        emsg += "'{}', must be '{}' or '{}'"
+                        emsg += "'{}', must be '{}' or '{}', for '{}'{}"
                         raise CCPPError(emsg.format(vdim, vert_layer_dim,
-                                                    vert_interface_dim))
+                                                    vert_interface_dim,
+                                                    std_name, ctx))
                     # end if
                 else:
-                    emsg = f"Unsupported 2-D variable, '{std_name}'"
+                    emsg = f"Unsupported 2-D variable, '{std_name}'{ctx}"
                     raise CCPPError(emsg)
                 # end if
-                # Create an index variable for <cvar>
-                if is_tend_var:
-                    const_std_name = std_name.split("tendency_of_")[1]
-                else:
-                    const_std_name = std_name
-                # end if
-                ind_std_name = f"index_of_{const_std_name}"
-                loc_name = f"{cvar_array_name}(:,:,{ind_std_name})"
-                ddt_mdata.append(f"[ {loc_name} ]")
-                ddt_mdata.append(f" standard_name = {std_name}")
-                units = cvar.get_prop_value('units')
-                ddt_mdata.append(f" units = {units}")
-                dimstr = f"({', '.join(dims)})"
-                ddt_mdata.append(f" dimensions = {dimstr}")
-                vtype = cvar.get_prop_value('type')
-                vkind = cvar.get_prop_value('kind')
-                ddt_mdata.append(f" type = {vtype} | kind = {vkind}")
-                if is_tend_var:
-                    tend_vars.add(cvar)
-                    tend_stdnames.add(std_name)
-                else:
-                    const_vars.add(cvar)
-                    const_stdnames.add(std_name)
-                # end if
-
+                stdnames.add(std_name)
+                const_vars.append((cvar, std_name.startswith('tendency_of_')))
             # end if
         # end for
     # end for
     # Check that all tendency variables are valid
-    for tendency_variable in tend_vars:
+    for tendency_variable in [x[0] for x in const_vars if x[1]]:
         tend_stdname = tendency_variable.get_prop_value('standard_name')
         tend_const_name = tend_stdname.split('tendency_of_')[1]
         found = False
         # Find the corresponding constituent variable
-        for const_variable in const_vars:
+        for const_variable in [x[0] for x in const_vars if not x[1]]:
             const_stdname = const_variable.get_prop_value('standard_name')
             if const_stdname == tend_const_name:
                 found = True
@@ -404,6 +344,73 @@ def add_constituent_vars(cap, host_model, suite_list, run_env):
                                    context=tendency_variable.context)
         # end if
     # end for
+    return const_vars
+
+###############################################################################
+def add_constituent_vars(cap, host_model, suite_list, run_env):
+###############################################################################
+    """Create a DDT library containing array reference variables
+    for each constituent field for all suites in <suite_list>.
+    Create and return a dictionary containing an index variable for each of the
+    constituents as well as the variables from the DDT object.
+    Also, write declarations for these variables to <cap>.
+    Since the constituents are in a DDT (ccpp_constituent_properties_t),
+    create a metadata table with the required information, then parse it
+    to create the dictionary.
+    """
+    # First create a MetadataTable for the constituents DDT
+    stdname_layer = "number_of_ccpp_constituents"
+    horiz_dim = "horizontal_dimension"
+    vert_layer_dim = "vertical_layer_dimension"
+    vert_interface_dim = "vertical_interface_dimension"
+    array_layer = "vars_layer"
+    tend_layer = "vars_layer_tend"
+    # Table preamble (leave off ccpp-table-properties header)
+    ddt_mdata = [
+        #"[ccpp-table-properties]",
+        f" name = {CONST_DDT_NAME}", " type = ddt",
+        "[ccpp-arg-table]",
+        f" name = {CONST_DDT_NAME}", " type = ddt",
+        "[ num_layer_vars ]",
+        f" standard_name = {stdname_layer}",
+        " units = count", " dimensions = ()", " type = integer",
+        f"[ {array_layer} ]",
+        " standard_name = ccpp_constituents",
+        " units = none",
+        f" dimensions = ({horiz_dim}, {vert_layer_dim}, {stdname_layer})",
+        " type = real", " kind = kind_phys"]
+    # Add entries for each constituent (once per standard name)
+    const_stdnames = set()
+    if run_env.verbose:
+        for suite in suite_list:
+            lmsg = "Adding constituents from {} to {}"
+            run_env.logger.debug(lmsg.format(suite.name, host_model.name))
+        # end for
+    # end if
+    for cvar, is_tend_var in constituent_variables(suite_list, run_env):
+        # Add a metadata entry for this constituent
+        std_name = cvar.get_prop_value('standard_name')
+        if is_tend_var:
+            cvar_array_name = tend_layer
+            const_std_name = std_name.split("tendency_of_")[1]
+        else:
+            cvar_array_name = array_layer
+            const_std_name = std_name
+            const_stdnames.add(std_name)
+        # end if
+        # Create an index variable for <cvar>
+        ind_std_name = f"index_of_{const_std_name}"
+        loc_name = f"{cvar_array_name}(:,:,{ind_std_name})"
+        ddt_mdata.append(f"[ {loc_name} ]")
+        ddt_mdata.append(f" standard_name = {std_name}")
+        units = cvar.get_prop_value('units')
+        ddt_mdata.append(f" units = {units}")
+        dimstr = f"({', '.join(cvar.get_dimensions())})"
+        ddt_mdata.append(f" dimensions = {dimstr}")
+        vtype = cvar.get_prop_value('type')
+        vkind = cvar.get_prop_value('kind')
+        ddt_mdata.append(f" type = {vtype} | kind = {vkind}")
+    # end for
     # Parse this table using a fake filename
     parse_obj = ParseObject(f"{host_model.name}_constituent_mod.meta",
                             ddt_mdata)
-- 
2.43.0


From c5d0cbd6e49fc2e1534cecf8816a9935b61edf7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:10:43 +0000
Subject: [PATCH 83/89] fix: Call every scheme which operates on one layer
 inside its own vertical loop

---
 scripts/suite_objects.py | 38 ++++++++++++++++++++++++++++----------
 1 file changed, 28 insertions(+), 10 deletions(-)

diff --git a/scripts/suite_objects.py b/scripts/suite_objects.py
index ba8be15..02f62d0 100755
--- a/scripts/suite_objects.py
+++ b/scripts/suite_objects.py
@@ -551,6 +551,21 @@ class SuiteObject(VarDictionary):
         # end for
         return dim_match
 
+    def has_vertical_index(self, vloop_subst):
+        """Return True iff every index needed for <vloop_subst> has a value
+        here. The index of a VerticalLoop only has a value inside of it."""
+        for stdname in vloop_subst.required_stdnames:
+            var = self.find_variable(standard_name=stdname, any_scope=True)
+            if var is None:
+                return False
+            # end if
+            if ((var.source.ptype in _API_LOCAL_VAR_TYPES) and
+                (self.vert_dim_match(vloop_subst) is None)):
+                return False
+            # end if
+        # end for
+        return True
+
     def horiz_dim_match(self, ndim, hdim, nloop_subst):
         """Find a match between <ndim> and <hdim>, if they are both
         horizontal dimensions.
@@ -729,16 +744,11 @@ class SuiteObject(VarDictionary):
                 vmatch_dims = ':'.join(vvmatch.required_stdnames)
                 # See if the missing vertical dimensions exist
                 missing_vert_dim = None
-                for mstdname in vvmatch.required_stdnames:
-                    mvdim = self.find_variable(standard_name=mstdname,
-                                               any_scope=True)
-                    if not mvdim:
-                        missing_vert_dim = vmatch_dims
-                        match = False # Should trigger vertical loop action
-                        reason = 'missing vertical dimension'
-                        break
-                    # end if
-                # end for
+                if not self.has_vertical_index(vvmatch):
+                    missing_vert_dim = vmatch_dims
+                    match = False # Should trigger vertical loop action
+                    reason = 'missing vertical dimension'
+                # end if
                 # While we have a missing vertical dimension which has been
                 # created, do NOT enter the substitution into have_dims.
                 # The supplied variable still has a vertical dimension.
@@ -1431,6 +1441,14 @@ class Scheme(SuiteObject):
             # end if
         # end for
         if self.needs_vertical is not None:
+            if isinstance(self.parent, VerticalLoop):
+                emsg = "{}: Cannot call scheme in more than one vertical loop "
+                emsg += "({} and {}){}"
+                raise CCPPError(emsg.format(self.subroutine_name,
+                                            self.parent.name,
+                                            self.needs_vertical,
+                                            context_string(self.__context)))
+            # end if
             self.parent.add_part(self, replace=True) # Should add a vloop
             if isinstance(self.parent, VerticalLoop):
                 # Restart the loop analysis
-- 
2.43.0


From 23c468fbe4157fbf306151636c8521ad8eea589f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:11:18 +0000
Subject: [PATCH 84/89] fix: Declare quantities as their owner does when a
 scheme is called for each layer

---
 scripts/suite_objects.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scripts/suite_objects.py b/scripts/suite_objects.py
index 02f62d0..98cdd82 100755
--- a/scripts/suite_objects.py
+++ b/scripts/suite_objects.py
@@ -937,7 +937,8 @@ class SuiteObject(VarDictionary):
                 raise CCPPError(errmsg)
             # end if
             # Add the variable to the parent call tree
-            if dict_dims == new_dict_dims:
+            if ((dict_dims == new_dict_dims) and
+                (len(dict_dims) == len(vdims))):
                 sdict = {}
             else:
                 sdict = {'dimensions':new_dict_dims}
-- 
2.43.0


From a67c9b8272e7a09a9004c1205c822eb14f79a922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:12:05 +0000
Subject: [PATCH 85/89] fix: Transform only the current layer of a quantity
 when a scheme is called for each layer

---
 scripts/suite_objects.py | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/scripts/suite_objects.py b/scripts/suite_objects.py
index 98cdd82..724ea6f 100755
--- a/scripts/suite_objects.py
+++ b/scripts/suite_objects.py
@@ -179,11 +179,12 @@ class CallList(VarDictionary):
                     # We only need dimensions for suite variables in run phase
                     need_dims = SuiteObject.is_suite_variable(dvar) and run_phase
                     if local_copies and (stdname in local_copies):
-                        need_dims = False
+                        vdims = ''
+                    else:
+                        vdims = var.call_dimstring(var_dicts=use_dicts,
+                                                   explicit_dims=need_dims,
+                                                   loop_subst=run_phase)
                     # end if
-                    vdims = var.call_dimstring(var_dicts=use_dicts,
-                                               explicit_dims=need_dims,
-                                               loop_subst=run_phase)
                     if _BLANK_DIMS_RE.match(vdims) is None:
                         lname = lname + vdims
                     # end if
@@ -1434,8 +1435,13 @@ class Scheme(SuiteObject):
             if var.get_prop_value('optional'):
                 if (dict_var is None) or (conditional != '.true.'):
                     # Use the dimensions of the variable as passed
-                    pvar = self.call_list.find_variable(standard_name=vstdname,
-                                                        any_scope=False)
+                    if vstdname in self.__transform_lnames:
+                        # A transformed variable is passed via a local copy
+                        pvar = var
+                    else:
+                        pvar = self.call_list.find_variable(standard_name=vstdname,
+                                                            any_scope=False)
+                    # end if
                     ptr_name = self.__group.add_local_pointer(pvar)
                     self.__optional_vars.append([dict_var, var, ptr_name])
                 # end if
@@ -1775,6 +1781,17 @@ class Scheme(SuiteObject):
         In the run phase, a Scheme only operates on a subset of the horizontal
         dimension but a suite variable always has the full dimension."""
         dvar = self.group_var(stdname, cldicts)
+        cdims = self.call_list.find_variable(standard_name=stdname,
+                                             any_scope=False).get_dimensions()
+        if len(cdims) > len(indices):
+            # Only transform the current level
+            indices = list(indices)
+            for index, dim in enumerate(cdims):
+                if is_vertical_dimension(dim) and (':' not in dim):
+                    indices.insert(index, self.group_lname(dim, cldicts))
+                # end if
+            # end for
+        # end if
         if self.run_phase() and SuiteObject.is_suite_variable(dvar):
             _, hdim = find_horizontal_dimension(dvar.get_dimensions())
             if hdim >= 0:
-- 
2.43.0


From 8680d0d2b3c3ceabead25de1efe4c0277d4b4f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:12:35 +0000
Subject: [PATCH 86/89] fix: Call schemes for each layer of quantities which
 belong to the suite

---
 scripts/suite_objects.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/scripts/suite_objects.py b/scripts/suite_objects.py
index 724ea6f..62a6f49 100755
--- a/scripts/suite_objects.py
+++ b/scripts/suite_objects.py
@@ -901,6 +901,18 @@ class SuiteObject(VarDictionary):
             found_var = True
             new_vdims = dict_var.get_dimensions()
             self.check_match(var, dict_var, vdims, new_vdims)
+            _, nvdim_index = find_vertical_dimension(vdims)
+            hvdim, hvdim_index = find_vertical_dimension(new_vdims)
+            if nvdim_index < 0 <= hvdim_index:
+                # The scheme is called for every level of this variable
+                vvmatch = VarDictionary.loop_var_match(hvdim)
+                new_vdims = list(new_vdims)
+                new_vdims[hvdim_index] = ':'.join(vvmatch.required_stdnames)
+                if not self.parent.has_vertical_index(vvmatch):
+                    missing_vert = new_vdims[hvdim_index]
+                    found_var = False
+                # end if
+            # end if
             if not (self.run_phase() or self.timestep_phase()):
                 # This variable is needed outside of a timestep
                 dict_var.adjust_persistence('run')
-- 
2.43.0


From a1e2176506d659b551c2947de84338aedc9028a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:28:20 +0000
Subject: [PATCH 87/89] fix: Pass only the current columns of a suite variable
 when nothing else needs the loop limits

---
 scripts/suite_objects.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/scripts/suite_objects.py b/scripts/suite_objects.py
index 62a6f49..c76c22b 100755
--- a/scripts/suite_objects.py
+++ b/scripts/suite_objects.py
@@ -1367,7 +1367,14 @@ class Scheme(SuiteObject):
                 # with its dimensions, make sure they are available.
                 if (dict_var is not None and
                     dict_var.source.ptype in _API_LOCAL_VAR_TYPES):
-                    self.add_group_dimensions(dict_var.get_dimensions())
+                    sdims = list(dict_var.get_dimensions())
+                    _, hdim = find_horizontal_dimension(sdims)
+                    if ((hdim >= 0) and self.run_phase() and
+                        SuiteObject.is_suite_variable(dict_var)):
+                        # Only the current part of a suite variable is passed
+                        sdims.append('horizontal_loop_begin:horizontal_loop_end')
+                    # end if
+                    self.add_group_dimensions(sdims)
                 # end if
                 # We have a match, make sure var is in call list
                 if new_dims == vdims:
-- 
2.43.0


From 895869c86886fd338963416ff317390009efc93b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:51:44 +0000
Subject: [PATCH 88/89] fix: Say where the array of the wrong size was found in
 the message of a debug check

---
 scripts/suite_objects.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/suite_objects.py b/scripts/suite_objects.py
index c76c22b..9d92023 100755
--- a/scripts/suite_objects.py
+++ b/scripts/suite_objects.py
@@ -1750,8 +1750,8 @@ class Scheme(SuiteObject):
             # end if
             outfile.write(f"! Check size of array {local_name}", tmp_indent)
             outfile.write(f"if (size({local_name}{dim_string}) /= {array_size}) then", tmp_indent)
-            outfile.write(f"write({errmsg}, '(a)') 'In group {self.__group.name} before {self.__subroutine_name}:'", tmp_indent+1)
-            outfile.write(f"write({errmsg}, '(2(a,i8))') 'for array {local_name}, expected size ', {array_size}, ' but got ', size({local_name})", tmp_indent+1)
+            outfile.write(f"write({errmsg}, '(2(a,i0))') 'In group {self.__group.name} before {self.__subroutine_name}: ' // "
+                          f"'for array {local_name}, expected size ', {array_size}, ' but got ', size({local_name}{dim_string})", tmp_indent+1)
             outfile.write(f"{errcode} = 1", tmp_indent+1)
             outfile.write(f"return", tmp_indent+1)
             outfile.write(f"end if", tmp_indent)
-- 
2.43.0


From 5e0904c425be136beb98b13e26e47a1c72c1eb7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:11:01 +0000
Subject: [PATCH 89/89] fix: Let nested subcycles of the same name have loop
 indices of their own

---
 scripts/suite_objects.py | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/scripts/suite_objects.py b/scripts/suite_objects.py
index 9d92023..79b2306 100755
--- a/scripts/suite_objects.py
+++ b/scripts/suite_objects.py
@@ -2213,6 +2213,7 @@ class Subcycle(SuiteObject):
         name = sub_xml.get('name', None) # Iteration count
         loop_extent = sub_xml.get('loop', "1") # Number of iterations
         self._loop = loop_extent
+        self._loop_name = name
         # See if our loop variable is an interger or a variable
         try:
             loop_int = int(loop_extent) # pylint: disable=unused-variable
@@ -2237,9 +2238,23 @@ class Subcycle(SuiteObject):
         if self.name is None:
             self.name = "subcycle_index{}".format(level)
         # end if
+        # The loop index of an enclosing subcycle must not be changed
+        outer_names = list()
+        outer = self.parent
+        while outer is not None:
+            if isinstance(outer, Subcycle):
+                outer_names.append(outer.loop_name.lower())
+            # end if
+            outer = outer.parent
+        # end while
+        self._loop_name = self.name
+        if self.name.lower() in outer_names:
+            self._loop_name = group.new_internal_variable_name(prefix=self.name,
+                                                               used=outer_names)
+        # end if
         # Create a (group local) variable for the loop index
-        group.add_variable(Var({'local_name':self.name,
-                                'standard_name':'loop_variable_'+self.name,
+        group.add_variable(Var({'local_name':self.loop_name,
+                                'standard_name':'loop_variable_'+self.loop_name,
                                 'type':'integer', 'units':'count',
                                 'dimensions':'()'}, _API_LOCAL, self.run_env),
                            self.run_env, exists_ok=True)
@@ -2256,13 +2271,18 @@ class Subcycle(SuiteObject):
 
     def write(self, outfile, errcode, errmsg, indent):
         """Write code for the subcycle loop, including contents, to <outfile>"""
-        outfile.write('do {} = 1, {}'.format(self.name, self.loop), indent)
+        outfile.write('do {} = 1, {}'.format(self.loop_name, self.loop), indent)
         # Note that 'scheme' may be a sybcycle or other construct
         for item in self.parts:
             item.write(outfile, errcode, errmsg, indent+1)
         # end for
         outfile.write('end do', indent)
 
+    @property
+    def loop_name(self):
+        """Return the local_name of this subcycle's loop index"""
+        return self._loop_name
+
     @property
     def loop(self):
         """Return the loop value or variable local_name"""
-- 
2.43.0

