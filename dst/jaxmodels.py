"""The user models of models.py as a downstream user of the JAX backend would write them."""
import jax.numpy as jnp


def drift(p):
    c, d = jnp.array(p['c']), jnp.array(p['D'])
    return (lambda s: c), (lambda s: d)


def echo(t, s, u):
    return u


def aff_f(p):
    k = p['k']

    def f(s):
        out = [s[1], -k[0] * jnp.sin(s[0]) - k[1] * s[1]]
        for i in range(2, p['nx']):
            out.append(-k[2] * s[i] + k[3] * jnp.cos(s[i - 1]))
        return jnp.stack(out)

    return f


def aff_g(p):
    k = p['k']

    def g(s):
        out = jnp.zeros((p['nx'], p['nu']))
        out = out.at[1, 0].set(1 + k[4] * jnp.cos(s[0]))
        for i in range(2, p['nx']):
            out = out.at[i, (i - 1) % p['nu']].set(k[5])
        return out

    return g


def ode_f(p):
    k = p['k']

    def f(t, s, u):
        out = [jnp.ones_like(s[0])]
        for i in range(1, p['nx']):
            out.append(-k[0] * s[i] + k[1] * jnp.sin(k[2] * t + i) + k[3] * u[(i - 1) % p['nu']] + k[4] * jnp.tanh(s[i - 1] if i > 1 else 0.0))
        return jnp.stack(out)

    return f
