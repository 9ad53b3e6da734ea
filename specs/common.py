"""Contracts shared by several components."""
from vc import *


def sum_(l):
    t = 0
    for x in l:
        t = t + x
    return t


def ownership(p, crate, fn, owner, ns='config', prop_ns='ownership_proposal', frame=None, also_owner=None, tag='', propose='ProposeNewOwner',
              drop='DropOwnershipProposal', claim='ClaimOwnership', ty='astroport::common::OwnershipProposal'):
    """two-step ownership transfer: propose and drop by the owner only, claim by the proposed owner only and before the proposal
    expires; the owner changes by nothing else"""
    def propose_post(c):
        c.ensure('only the owner proposes', c.eq(c.sender, owner(c, 'pre')))
        q = c.post(prop_ns, (), ty)
        c.ensure('the proposal names the new owner', q is not None and c.eq(q.owner, c.msg.owner))
        c.ensure('the proposal expires as asked', T.eq(q.ttl.n, c.now + c.msg.expires_in.n))
        c.ensure('a proposal lasts at most two weeks', T.le(c.msg.expires_in.n, 1209600))
        c.ensure('the owner does not propose itself', Not(c.eq(c.msg.owner, owner(c, 'pre'))))
        c.only_written(prop_ns)
        c.only_messages()
        c.cover('proposed')

    def drop_post(c):
        c.ensure('only the owner drops a proposal', c.eq(c.sender, owner(c, 'pre')))
        c.ensure('no proposal is left', c.post(prop_ns, (), ty) is None)
        c.only_written(prop_ns)
        c.only_messages()
        c.cover('dropped')

    def claim_post(c):
        q = c.pre(prop_ns, (), ty)
        c.ensure('there is a proposal', q is not None)
        if q is None:
            return
        c.ensure('only the proposed owner claims', c.eq(c.sender, q.owner))
        c.ensure('an expired proposal cannot be claimed', T.le(c.now, q.ttl.n))
        c.ensure('the claimer becomes the owner', c.eq(owner(c, 'post'), c.sender))
        c.ensure('the proposal is used up', c.post(prop_ns, (), ty) is None)
        if frame:
            frame(c)
        elif ns:
            c.ensure('nothing but the owner changes', c.pre(ns).same_but(c.post(ns), 'owner'))
        c.only_written(prop_ns, ns)
        c.only_messages()
        c.cover('claimed')
    p.add(Scenario(tag + 'propose owner', crate, fn, propose_post, fixed={'msg': propose}, covers=['proposed']),
          Scenario(tag + 'drop proposal', crate, fn, drop_post, fixed={'msg': drop}, covers=['dropped']),
          Scenario(tag + 'claim ownership', crate, fn, claim_post, fixed={'msg': claim}, covers=['claimed']))


def sole_owner_writes(c, ns, owner_before, owner_after):
    """the owner field does not change"""
    c.ensure('the owner does not change', c.eq(owner_before, owner_after))


def factory_config(c, factory):
    """the configuration of the factory, as this call was told (stored item or query)"""
    v = c.raw(factory, 'config')
    if v is None:
        r = c.smart(factory, 'Config')
        v = None if r is None else r.answer
    return v


def asset_decimals(c, asset, factory):
    """the decimals of an asset, as this call was told: by the token itself, or by the coin registry the factory names"""
    if asset.variant == 'Token':
        r = c.smart(asset.contract_addr, 'TokenInfo')
        return None if r is None or r.answer is None else r.answer.decimals
    f = factory_config(c, factory)
    if f is None:
        return None
    return c.raw_map(f.coin_registry_address, 'coins_info', asset.denom, 'u8')
