"""All the workloads."""
import props_build
import props_conc
import props_env
import props_fetch


class C19(object):
    """All sorts of commands: those of the other workloads."""
    id = 'C19'

    class TwoEnvs(props_env.EnvProp):
        id = 'C19'
        families = ('kill', 'error', 'full', 'net')
        worldargs = {'envs': 2}

    kinds = (TwoEnvs, TwoEnvs, TwoEnvs, props_env.C17, props_build.C10,
             props_build.C11, props_build.C12, props_build.C13,
             props_build.C16)

    def world(self, rng):
        self.other = rng.choice(self.kinds)()
        return self.other.world(rng)

    def before(self, rng, state, target, dry):
        before = getattr(self.other, 'before', None)
        return before(rng, state, target, dry) if before else ()

    def __getattr__(self, name):
        return getattr(self.other, name)


PROPS = {'C19': C19}
for module in (props_env, props_fetch, props_build, props_conc):
    PROPS.update(module.PROPS)
