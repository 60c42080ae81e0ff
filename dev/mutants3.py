P='py/_polyops.pyx'; C='py/common.pxd'
M=[
dict(id='p14-partial-leak',prop='C14',pydemo='results',edits=[(P,"""            if(NPY_UNLIKELY(!item)) {
                Py_DECREF(r);
                return nullptr;
            }
""","""            if(NPY_UNLIKELY(!item)) return nullptr;
""")]),
dict(id='p14-child-leak',prop='C14',pydemo='tracked-results',edits=[(P,"""            Py_DECREF(children);
        }
        Py_DECREF(loop);
        Py_DECREF(offsets);
        Py_DECREF(indices);

        return r;""","""            Py_DECREF(children);
            Py_DECREF(loop);
            Py_DECREF(offsets);
            Py_DECREF(indices);
        }

        return r;""")]),
dict(id='p14-memerr',prop='C14',pydemo='tracked-memory',edits=[(P,"""                clipper_execute_without_gil<false>(c,op,pt),
                &tracked_poly_proxy_to_py,
                dtype);
        } catch(const std::bad_alloc&) {
            return PyErr_NoMemory();
        } catch(...) {""","""                clipper_execute_without_gil<false>(c,op,pt),
                &tracked_poly_proxy_to_py,
                dtype);
        } catch(...) {""")]),
dict(id='p14-noexec-noexcept',prop='C14',pydemo='memory',edits=[(P,"""template<bool Tree> auto clipper_execute_without_gil(clipper &c,_bool_op op) {""","""template<bool Tree> auto clipper_execute_without_gil(clipper &c,_bool_op op) noexcept {""")]),
dict(id='p14-unlock-static',prop='C14',pydemo='threads',edits=[(C,"""    class gil_unlocker {
        PyThreadState *state;
    public:
        gil_unlocker() noexcept : state(PyEval_SaveThread()) {}""","""    class gil_unlocker {
        inline static PyThreadState *state;
    public:
        gil_unlocker() noexcept { state = PyEval_SaveThread(); }"""),(P,"""auto clipper_execute_without_gil(clipper &c,_bool_op op) {
        gil_unlocker unlocker;""","""auto clipper_execute_without_gil(clipper &c,_bool_op op) {
        gil_unlocker unlocker{};""")]),
dict(id='p14-swallow',prop='C14',pydemo='refused',edits=[(P,"""            polyops_npy_range itr(ar,NPY_ITER_READONLY | NPY_ITER_REFS_OK,casting);
            if(NPY_UNLIKELY(!itr)) return nullptr;

            {""","""            polyops_npy_range itr(ar,NPY_ITER_READONLY | NPY_ITER_REFS_OK,casting);
            if(NPY_UNLIKELY(!itr)) {
                PyErr_Clear();
                Py_RETURN_NONE;
            }

            {""")]),
dict(id='p14-offset-range',prop='C14',pydemo='offset-refused',edits=[(P,"""            if(NPY_UNLIKELY(!nr)) return nullptr;

            {
                cond""","""            assert(nr);

            {
                cond""")]),
dict(id='p14-offset-static',prop='C14',pydemo='offset-threads',edits=[(P,"""            {
                cond_gil_unlocker unlocker{!nr.needs_api()};
                poly_ops::add_offset(c,nr,static_cast<poly_ops::bool_set>(cat),magnitude,step_size,closed != 0,pt);
            }
""","""            {
                static std::vector<poly_ops::point_t<coord_t>> points;
                cond_gil_unlocker unlocker{!nr.needs_api()};
                points.clear();
                for(auto itr=nr.begin(); itr!=nr.end(); ++itr) points.emplace_back((*itr)[0],(*itr)[1]);
                poly_ops::add_offset(c,points,static_cast<poly_ops::bool_set>(cat),magnitude,step_size,closed != 0,pt);
            }
""")]),
dict(id='p14-loop-refs',prop='C14',pydemo='results',edits=[(P,"""        PyObject *children = proxy_range_to_py(x.inner_loops(),&poly_proxy_to_py_tree,dtype);
        if(NPY_UNLIKELY(!children)) return nullptr;
        py_ref_owner children_o{children};

        return make_recur_loop(loop,children);""","""        PyObject *children = proxy_range_to_py(x.inner_loops(),&poly_proxy_to_py_tree,dtype);
        if(NPY_UNLIKELY(!children)) return nullptr;

        PyObject *r = make_recur_loop(loop,children);
        if(r) Py_DECREF(children);
        return r;""")]),
dict(id='p14-descr',prop='C14',pydemo='x',edits=[(P,"""    cdef np.ndarray ar
    cdef np.dtype r

    ar = common.to_array(loop)
    if common_dtype is None:
        r = ar.descr
    else:
        r = PyArray_PromoteTypes(ar.descr,<np.dtype>common_dtype)
    _clipper_add_loop(c,ar,bset,casting,pt)
    return r""","""    cdef np.ndarray ar
    cdef np.dtype r

    ar = common.to_array(loop)
    _clipper_add_loop(c,ar,bset,casting,pt)
    if common_dtype is None:
        r = ar.descr
    else:
        r = PyArray_PromoteTypes(ar.descr,<np.dtype>common_dtype)
    return r""")]),
]
