From 01e1bda28f27845c5ae0dd9d3d54a0da919953e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:42 +0000
Subject: [PATCH] fix: create_locker fails for ever when the creator is the
 pool itself

transfer_pool_creator accepts any address. With the pool's own address as
creator, create_locker passes the virtual pool as the escrow recipient while it
is still mutably borrowed, so the CPI fails with AccountBorrowFailed and the
completed pool can never migrate. Release the borrows before the CPI.
---
 .../src/instructions/migration/create_locker.rs            | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/programs/dynamic-bonding-curve/src/instructions/migration/create_locker.rs b/programs/dynamic-bonding-curve/src/instructions/migration/create_locker.rs
index 7c1b2c5..70fda46 100644
--- a/programs/dynamic-bonding-curve/src/instructions/migration/create_locker.rs
+++ b/programs/dynamic-bonding-curve/src/instructions/migration/create_locker.rs
@@ -71,7 +71,7 @@ pub struct CreateLockerCtx<'info> {
 }
 
 pub fn handle_create_locker(ctx: Context<CreateLockerCtx>) -> Result<()> {
-    let mut virtual_pool = ctx.accounts.virtual_pool.load_mut()?;
+    let virtual_pool = ctx.accounts.virtual_pool.load()?;
 
     require!(
         virtual_pool.get_migration_progress()? == MigrationProgress::PostBondingCurve,
@@ -85,6 +85,10 @@ pub fn handle_create_locker(ctx: Context<CreateLockerCtx>) -> Result<()> {
     let vesting_params = locked_vesting_params
         .to_create_vesting_escrow_params(virtual_pool.finish_curve_timestamp)?;
 
+    // the creator can be any address, even the pool itself, so no account may stay borrowed over the cpi
+    drop(virtual_pool);
+    drop(config);
+
     let virtual_pool_key = ctx.accounts.virtual_pool.key();
     let base_seeds = base_locker_seeds!(virtual_pool_key, ctx.bumps.base);
 
@@ -130,6 +134,7 @@ pub fn handle_create_locker(ctx: Context<CreateLockerCtx>) -> Result<()> {
     )?;
 
     // set progress
+    let mut virtual_pool = ctx.accounts.virtual_pool.load_mut()?;
     virtual_pool.set_migration_progress(MigrationProgress::LockedVesting.into());
 
     Ok(())
-- 
2.43.0

