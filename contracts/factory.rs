// ---- pool factory: names for the stored state
pub open spec fn f_init(w: World) -> bool { w.inst.contains_key(SKey::Sym(sym!("IsInit"))) }
pub open spec fn f_meta(w: World) -> Option<PoolInitMeta> { mget::<PoolInitMeta>(w.inst, SKey::Sym(sym!("PoolMeta"))) }
pub open spec fn k_pool(a: Address) -> SKey { SKey::K_PoolFactoryDataKey(PoolFactoryDataKey::Contracts(a)) }
/// `a` was recorded by the factory
pub open spec fn f_deployed(w: World, a: Address) -> bool { mget::<bool>(w.pers, k_pool(a)) == Some(true) }
/// the salt actually used: a hash over the caller's salt and the admin's address
pub open spec fn f_salt(admin: Address, salt: BytesN<32>) -> BytesN<32> { keccak_of(conv::<BytesN<32>, Bytes>(salt)@ + addr_str(admin)) }
pub open spec fn f_init_args(admin: Address, name: SString, oracle: Address, take: u32, maxp: u32, m: PoolInitMeta) -> Seq<Val> {
    seq![conv::<Address, Val>(admin), conv::<SString, Val>(name), conv::<Address, Val>(oracle), conv::<u32, Val>(take), conv::<u32, Val>(maxp), conv::<Address, Val>(m.backstop), conv::<Address, Val>(m.blnd_id)]
}
