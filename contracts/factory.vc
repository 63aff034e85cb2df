fn pool_factory::PoolFactoryContract::initialize(e, pool_init_meta)
panics [C30] *: f_init(w0)
ensures
- [C30] !f_init(w0)
- [C30] f_init(w1) && f_meta(w1) == Some(pool_init_meta)
- [C04 C30] w1.pers == w0.pers && w1.calls == w0.calls

fn pool_factory::PoolFactoryContract::deploy(e, admin, name, salt, oracle, backstop_take_rate, max_positions) -> r
panics [C04] *: backstop_take_rate >= 1_0000000 || max_positions < 2
ensures
- [C04] w1.auths.contains(admin)
- [C04] backstop_take_rate < 1_0000000 && max_positions >= 2
- [C04] f_meta(w0) is Some && r == deployed_at(w0.this, f_salt(admin, salt))
- [C04] f_deployed(w1, r)
- [C04] forall|a: Address| a != r ==> #[trigger] f_deployed(w1, a) == f_deployed(w0, a)
- [C04] w1.calls =~= w0.calls.push(Call::Deploy { salt: f_salt(admin, salt), hash: (f_meta(w0)->0).pool_hash, at: r }).push(Call::Invoke { at: r, func: sym!("initialize"), args: f_init_args(admin, name, oracle, backstop_take_rate, max_positions, f_meta(w0)->0) })
- [C04 C30] w1.inst == w0.inst
before invoke_contract 0
assert(init_args@ =~= f_init_args(admin, name, oracle, backstop_take_rate, max_positions, f_meta(w0)->0));

fn pool_factory::PoolFactoryContract::is_pool(e, pool_address) -> r
panics [C04] *: false
ensures
- [C04] r == f_deployed(w0, pool_address)
- [C04 C30] w1 == w0
