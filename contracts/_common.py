"""helpers shared by the contracts (pure contract text, works symbolically and concretely)"""


def any_basis(F, K, shaped, module='quocslib.pulses.BasePulse'):
    """a basis whose unshaped pulse is an arbitrary array: the contract of _get_shaped_pulse"""
    BP = F.mod(module).BasePulse

    class AnyBasis(BP):
        control_parameters_number = K

        def _get_shaped_pulse(self):
            return shaped.copy()
    return AnyBasis


def guess_setting(F, mod, kind, name, n):
    """initial guess / scaling of the three supported kinds; the function itself is arbitrary"""
    if kind == 'lambda':
        f = F.func(name)
        F.patch(mod, 'vc_user_' + name, f)
        return {"function_type": "lambda_function", "lambda_function": "lambda t: vc_user_%s(t)" % name}, (lambda t, i: f(t))
    if kind == 'list':
        a = F.array(name + '_list', n)
        if not F.sym and F.case(name + '_whole_numbers'):        # as read from a JSON file: a list of whole numbers
            a = a.round()
            return {"function_type": "list_function", "list_function": [int(v) for v in a]}, (lambda t, i: a[i])
        return {"function_type": "list_function", "list_function": a.copy()}, (lambda t, i: a[i])
    if kind == 'two':
        f = F.func(name, 2)
        F.patch(mod, 'vc_user_' + name, f)
        return {"function_type": "lambda_function", "lambda_function": "lambda t, p: vc_user_%s(t, p)" % name}, (lambda t, i: None)
    if kind == 'file':
        # a python file in the working directory (a scratch directory of the run)
        import builtins, os
        f = F.func(name)
        setattr(builtins, 'vc_file_' + name, f)
        with open('vc_%s_file.py' % name, 'w') as h:
            h.write('def vc_fn(t):\n    return vc_file_%s(t)\n' % name)
        mode = F.choice(name + '_path', ['relative', 'absolute'])
        path = 'vc_%s_file' % name + ('.py' if mode == 'relative' else '')
        return {"function_type": "python_file", "file_path": path if mode == 'relative' else os.path.join(os.getcwd(), path), "function_name": "vc_fn",
                "path_mode": mode}, (lambda t, i: f(t))
    return None, None


def clip_spec(F, x, lo, hi):
    return F.max2(F.min2(x, hi), lo)


def after_earlier(F, call, N, same=None, **kw):
    """an arbitrary earlier call, then the vector of the next one: a new array, or the same array overwritten in place"""
    x = F.array('x_before', N, **kw)
    call(x)
    y = F.array('x', N, **kw)
    if F.case('same_array') if same is None else same:
        x[:] = y
        return x
    return y


def label(k):
    """the k-th configured name: the order of configuration is no order of the names; pulses, parameters and times may have the same names"""
    return (['m', 'c', 'x', 'ab', 'z', 'B', 'a', 'm2', 'm10'] + ['n%d' % (k - 9)])[min(k, 9)]
