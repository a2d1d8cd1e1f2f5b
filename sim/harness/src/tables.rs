//! Frozen copy of the game knowledge the recorder and the reference decoder
//! use: attribute kinds, class parents and spawn layouts. A copy, so that a
//! change of the tables under test is seen as a change of behaviour.
#![cfg_attr(rustfmt, rustfmt_skip)]

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord, Hash)]
pub enum Tag {
    Boolean,
    Byte,
    AppliedDamage,
    DamageState,
    CamSettings,
    ClubColors,
    Demolish,
    DemolishFx,
    DemolishExtended,
    Enum,
    Explosion,
    ExtendedExplosion,
    FlaggedByte,
    ActiveActor,
    Float,
    GameMode,
    Int,
    Int64,
    Loadout,
    TeamLoadout,
    Location,
    MusicStinger,
    Pickup,
    PickupNew,
    PlayerHistoryKey,
    QWordString,
    Welded,
    RigidBody,
    Title,
    TeamPaint,
    String,
    UniqueId,
    Reservation,
    PartyLeader,
    PrivateMatchSettings,
    LoadoutOnline,
    LoadoutsOnline,
    StatEvent,
    RotationTag,
    RepStatTitle,
    PickupInfo,
    Impulse,
    ReplicatedBoost,
    LogoData,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Spawn {
    None,
    Loc,
    LocRot,
}

pub static SPAWNS: &[(&str, Spawn)] = &[
    ("Engine.Actor", Spawn::Loc),
    ("Engine.ZoneInfo", Spawn::None),
    ("TAGame.BreakOutActor_Platform_TA", Spawn::None),
    ("TAGame.CrowdActor_TA", Spawn::None),
    ("TAGame.CrowdManager_TA", Spawn::None),
    ("TAGame.HauntedBallTrapTrigger_TA", Spawn::None),
    ("TAGame.InMapScoreboard_TA", Spawn::None),
    ("TAGame.PlayerStart_Platform_TA", Spawn::None),
    ("TAGame.RBActor_TA", Spawn::LocRot),
    ("TAGame.VehiclePickup_Boost_TA", Spawn::None),
    ("TAGame.KeepUpIndicator_TA", Spawn::LocRot),
];

pub static ATTRS: &[(&str, Tag)] = &[
    ("Engine.Actor:DrawScale", Tag::Float),
    ("Engine.Actor:RemoteRole", Tag::Enum),
    ("Engine.Actor:Role", Tag::Enum),
    ("Engine.Actor:Rotation", Tag::RotationTag),
    ("Engine.Actor:bBlockActors", Tag::Boolean),
    ("Engine.Actor:bCollideActors", Tag::Boolean),
    ("Engine.Actor:bCollideWorld", Tag::Boolean),
    ("Engine.Actor:bHidden", Tag::Boolean),
    ("Engine.Actor:bNetOwner", Tag::Boolean),
    ("Engine.Actor:bTearOff", Tag::Boolean),
    ("Engine.GameReplicationInfo:GameClass", Tag::ActiveActor),
    ("Engine.GameReplicationInfo:ServerName", Tag::String),
    ("Engine.GameReplicationInfo:bMatchIsOver", Tag::Boolean),
    ("Engine.Pawn:HealthMax", Tag::Int),
    ("Engine.Pawn:PlayerReplicationInfo", Tag::ActiveActor),
    ("Engine.Pawn:RemoteViewPitch", Tag::Byte),
    ("Engine.Pawn:bFastAttachedMove", Tag::Boolean),
    ("Engine.Pawn:bIsCrouched", Tag::Boolean),
    ("Engine.Pawn:bUsedByMatinee", Tag::Boolean),
    ("Engine.PlayerReplicationInfo:Ping", Tag::Byte),
    ("Engine.PlayerReplicationInfo:PlayerID", Tag::Int),
    ("Engine.PlayerReplicationInfo:PlayerName", Tag::String),
    ("Engine.PlayerReplicationInfo:RemoteUserData", Tag::String),
    ("Engine.PlayerReplicationInfo:Score", Tag::Int),
    ("Engine.PlayerReplicationInfo:Team", Tag::ActiveActor),
    ("Engine.PlayerReplicationInfo:UniqueId", Tag::UniqueId),
    ("Engine.PlayerReplicationInfo:bAdmin", Tag::Boolean),
    ("Engine.PlayerReplicationInfo:bBot", Tag::Boolean),
    ("Engine.PlayerReplicationInfo:bIsSpectator", Tag::Boolean),
    ("Engine.PlayerReplicationInfo:bReadyToPlay", Tag::Boolean),
    ("Engine.PlayerReplicationInfo:bTimedOut", Tag::Boolean),
    ("Engine.PlayerReplicationInfo:bWaitingPlayer", Tag::Boolean),
    ("Engine.ReplicatedActor_ORS:ReplicatedOwner", Tag::ActiveActor),
    ("Engine.TeamInfo:Score", Tag::Int),
    ("ProjectX.GRI_X:GameServerID", Tag::QWordString),
    ("ProjectX.GRI_X:MatchGUID", Tag::String),
    ("ProjectX.GRI_X:MatchGuid", Tag::String),
    ("ProjectX.GRI_X:ReplicatedGameMutatorIndex", Tag::Int),
    ("ProjectX.GRI_X:ReplicatedGamePlaylist", Tag::Int),
    ("ProjectX.GRI_X:ReplicatedServerRegion", Tag::String),
    ("ProjectX.GRI_X:Reservations", Tag::Reservation),
    ("ProjectX.GRI_X:bGameStarted", Tag::Boolean),
    ("TAGame.BallKeepUpComponent_TA:BallOwner", Tag::ActiveActor),
    ("TAGame.BallKeepUpComponent_TA:KeepUpState", Tag::Byte),
    ("TAGame.BallKeepUpComponent_TA:Score", Tag::Int),
    ("TAGame.Ball_Breakout_TA:AppliedDamage", Tag::AppliedDamage),
    ("TAGame.Ball_Breakout_TA:DamageIndex", Tag::Int),
    ("TAGame.Ball_Breakout_TA:LastTeamTouch", Tag::Byte),
    ("TAGame.Ball_Fire_TA:TeamNumChangeTimestamp", Tag::Float),
    ("TAGame.Ball_God_TA:TargetSpeed", Tag::Float),
    ("TAGame.Ball_Haunted_TA:DeactivatedGoalIndex", Tag::Byte),
    ("TAGame.Ball_Haunted_TA:LastTeamTouch", Tag::Byte),
    ("TAGame.Ball_Haunted_TA:ReplicatedBeamBrokenValue", Tag::Byte),
    ("TAGame.Ball_Haunted_TA:TotalActiveBeams", Tag::Byte),
    ("TAGame.Ball_Haunted_TA:bIsBallBeamed", Tag::Boolean),
    ("TAGame.Ball_Spawner_TA:SpawnDelaySeconds", Tag::Float),
    ("TAGame.Ball_Spawner_TA:SpawnedBall", Tag::ActiveActor),
    ("TAGame.Ball_TA:AdditionalCarGroundBounceScaleXY", Tag::Float),
    ("TAGame.Ball_TA:AdditionalCarGroundBounceScaleZ", Tag::Float),
    ("TAGame.Ball_TA:AirResistance", Tag::Location),
    ("TAGame.Ball_TA:BallHitSpinScale", Tag::Float),
    ("TAGame.Ball_TA:GameBallIndex", Tag::Int),
    ("TAGame.Ball_TA:GameEvent", Tag::ActiveActor),
    ("TAGame.Ball_TA:HitTeamNum", Tag::Byte),
    ("TAGame.Ball_TA:MagnusMinSpeed", Tag::Float),
    ("TAGame.Ball_TA:ReplicatedAddedCarBounceScale", Tag::Float),
    ("TAGame.Ball_TA:ReplicatedBallGravityScale", Tag::Float),
    ("TAGame.Ball_TA:ReplicatedBallMaxLinearSpeedScale", Tag::Float),
    ("TAGame.Ball_TA:ReplicatedBallScale", Tag::Float),
    ("TAGame.Ball_TA:ReplicatedExplosionData", Tag::Explosion),
    ("TAGame.Ball_TA:ReplicatedExplosionDataExtended", Tag::ExtendedExplosion),
    ("TAGame.Ball_TA:ReplicatedPhysMatOverride", Tag::ActiveActor),
    ("TAGame.Ball_TA:ReplicatedWorldBounceScale", Tag::Float),
    ("TAGame.Ball_TA:bPossessionEnabled", Tag::Boolean),
    ("TAGame.Ball_TA:bWarnBallReset", Tag::Boolean),
    ("TAGame.BreakOutActor_Platform_TA:DamageState", Tag::DamageState),
    ("TAGame.CameraSettingsActor_TA:CameraPitch", Tag::Byte),
    ("TAGame.CameraSettingsActor_TA:CameraYaw", Tag::Byte),
    ("TAGame.CameraSettingsActor_TA:PRI", Tag::ActiveActor),
    ("TAGame.CameraSettingsActor_TA:ProfileSettings", Tag::CamSettings),
    ("TAGame.CameraSettingsActor_TA:bMouseCameraToggleEnabled", Tag::Boolean),
    ("TAGame.CameraSettingsActor_TA:bUsingBehindView", Tag::Boolean),
    ("TAGame.CameraSettingsActor_TA:bUsingSecondaryCamera", Tag::Boolean),
    ("TAGame.CameraSettingsActor_TA:bUsingSwivel", Tag::Boolean),
    ("TAGame.Cannon_TA:FireCount", Tag::Byte),
    ("TAGame.Cannon_TA:Pitch", Tag::Float),
    ("TAGame.CarComponent_AirActivate_TA:AirActivateCount", Tag::Int),
    ("TAGame.CarComponent_Boost_TA:BoostModifier", Tag::Float),
    ("TAGame.CarComponent_Boost_TA:BoostRestriction", Tag::Byte),
    ("TAGame.CarComponent_Boost_TA:RechargeDelay", Tag::Float),
    ("TAGame.CarComponent_Boost_TA:RechargeRate", Tag::Float),
    ("TAGame.CarComponent_Boost_TA:ReplicatedBoost", Tag::ReplicatedBoost),
    ("TAGame.CarComponent_Boost_TA:ReplicatedBoostAmount", Tag::Byte),
    ("TAGame.CarComponent_Boost_TA:UnlimitedBoostRefCount", Tag::Int),
    ("TAGame.CarComponent_Boost_TA:bNoBoost", Tag::Boolean),
    ("TAGame.CarComponent_Boost_TA:bRechargeGroundOnly", Tag::Boolean),
    ("TAGame.CarComponent_Boost_TA:bUnlimitedBoost", Tag::Boolean),
    ("TAGame.CarComponent_Dodge_KO_TA:DodgeRotationCompressed", Tag::Int),
    ("TAGame.CarComponent_Dodge_TA:DodgeImpulse", Tag::Location),
    ("TAGame.CarComponent_Dodge_TA:DodgeTorque", Tag::Location),
    ("TAGame.CarComponent_DoubleJump_TA:DoubleJumpImpulse", Tag::Location),
    ("TAGame.CarComponent_FlipCar_TA:FlipCarTime", Tag::Float),
    ("TAGame.CarComponent_FlipCar_TA:bFlipRight", Tag::Boolean),
    ("TAGame.CarComponent_TA:ReplicatedActive", Tag::Byte),
    ("TAGame.CarComponent_TA:ReplicatedActivityTime", Tag::Float),
    ("TAGame.CarComponent_TA:Vehicle", Tag::ActiveActor),
    ("TAGame.CarComponent_Torque_TA:ReplicatedTorqueInput", Tag::Int),
    ("TAGame.CarComponent_Torque_TA:TorqueScale", Tag::Float),
    ("TAGame.Car_KnockOut_TA:ReplicatedImpulse", Tag::Impulse),
    ("TAGame.Car_KnockOut_TA:ReplicatedStateChanged", Tag::Byte),
    ("TAGame.Car_KnockOut_TA:ReplicatedStateName", Tag::Int),
    ("TAGame.Car_KnockOut_TA:UsedAttackComponent", Tag::ActiveActor),
    ("TAGame.Car_TA:AddedBallForceMultiplier", Tag::Float),
    ("TAGame.Car_TA:AddedCarForceMultiplier", Tag::Float),
    ("TAGame.Car_TA:AttachedPickup", Tag::ActiveActor),
    ("TAGame.Car_TA:ClubColors", Tag::ClubColors),
    ("TAGame.Car_TA:DodgesRefreshedCounter", Tag::Int),
    ("TAGame.Car_TA:ReplicatedCarMaxLinearSpeedScale", Tag::Float),
    ("TAGame.Car_TA:ReplicatedCarScale", Tag::Float),
    ("TAGame.Car_TA:ReplicatedDemolish", Tag::Demolish),
    ("TAGame.Car_TA:ReplicatedDemolishExtended", Tag::DemolishExtended),
    ("TAGame.Car_TA:ReplicatedDemolishGoalExplosion", Tag::DemolishFx),
    ("TAGame.Car_TA:ReplicatedDemolish_CustomFX", Tag::DemolishFx),
    ("TAGame.Car_TA:RumblePickups", Tag::ActiveActor),
    ("TAGame.Car_TA:TeamPaint", Tag::TeamPaint),
    ("TAGame.Car_TA:bUnlimitedJumps", Tag::Boolean),
    ("TAGame.Car_TA:bUnlimitedTimeForDodge", Tag::Boolean),
    ("TAGame.CrowdActor_TA:GameEvent", Tag::ActiveActor),
    ("TAGame.CrowdActor_TA:ModifiedNoise", Tag::Float),
    ("TAGame.CrowdActor_TA:ReplicatedCountDownNumber", Tag::Int),
    ("TAGame.CrowdActor_TA:ReplicatedOneShotSound", Tag::ActiveActor),
    ("TAGame.CrowdActor_TA:ReplicatedRoundCountDownNumber", Tag::Int),
    ("TAGame.CrowdManager_TA:GameEvent", Tag::ActiveActor),
    ("TAGame.CrowdManager_TA:ReplicatedGlobalOneShotSound", Tag::ActiveActor),
    ("TAGame.GRI_TA:LanMatchGUID", Tag::String),
    ("TAGame.GRI_TA:NewDedicatedServerIP", Tag::String),
    ("TAGame.GRI_TA:bAllowTargetFind", Tag::Boolean),
    ("TAGame.GameEvent_SoccarPrivate_TA:MatchSettings", Tag::PrivateMatchSettings),
    ("TAGame.GameEvent_Soccar_TA:GameTime", Tag::Int),
    ("TAGame.GameEvent_Soccar_TA:GameWinner", Tag::ActiveActor),
    ("TAGame.GameEvent_Soccar_TA:MVP", Tag::ActiveActor),
    ("TAGame.GameEvent_Soccar_TA:MatchWinner", Tag::ActiveActor),
    ("TAGame.GameEvent_Soccar_TA:MaxScore", Tag::Int),
    ("TAGame.GameEvent_Soccar_TA:ReplicatedMusicStinger", Tag::MusicStinger),
    ("TAGame.GameEvent_Soccar_TA:ReplicatedScoredOnTeam", Tag::Byte),
    ("TAGame.GameEvent_Soccar_TA:ReplicatedServerPerformanceState", Tag::Byte),
    ("TAGame.GameEvent_Soccar_TA:ReplicatedStatEvent", Tag::StatEvent),
    ("TAGame.GameEvent_Soccar_TA:RoundNum", Tag::Int),
    ("TAGame.GameEvent_Soccar_TA:SecondsRemaining", Tag::Int),
    ("TAGame.GameEvent_Soccar_TA:SeriesLength", Tag::Int),
    ("TAGame.GameEvent_Soccar_TA:SubRulesArchetype", Tag::ActiveActor),
    ("TAGame.GameEvent_Soccar_TA:TotalGameBalls", Tag::Int),
    ("TAGame.GameEvent_Soccar_TA:bAllowHonorDuels", Tag::Boolean),
    ("TAGame.GameEvent_Soccar_TA:bBallHasBeenHit", Tag::Boolean),
    ("TAGame.GameEvent_Soccar_TA:bClubMatch", Tag::Boolean),
    ("TAGame.GameEvent_Soccar_TA:bDisableCrowdSound", Tag::Boolean),
    ("TAGame.GameEvent_Soccar_TA:bFullClubMatch", Tag::Boolean),
    ("TAGame.GameEvent_Soccar_TA:bFullMatchWinnerDecided", Tag::Boolean),
    ("TAGame.GameEvent_Soccar_TA:bGoalsEnabled", Tag::Boolean),
    ("TAGame.GameEvent_Soccar_TA:bMatchCreatorAdminEnabled", Tag::Boolean),
    ("TAGame.GameEvent_Soccar_TA:bMatchEnded", Tag::Boolean),
    ("TAGame.GameEvent_Soccar_TA:bNoContest", Tag::Boolean),
    ("TAGame.GameEvent_Soccar_TA:bOverTime", Tag::Boolean),
    ("TAGame.GameEvent_Soccar_TA:bReadyToStartGame", Tag::Boolean),
    ("TAGame.GameEvent_Soccar_TA:bShouldSpawnGoalIndicators", Tag::Boolean),
    ("TAGame.GameEvent_Soccar_TA:bShowIntroScene", Tag::Boolean),
    ("TAGame.GameEvent_Soccar_TA:bUnlimitedTime", Tag::Boolean),
    ("TAGame.GameEvent_TA:BotSkill", Tag::Int),
    ("TAGame.GameEvent_TA:GameMode", Tag::GameMode),
    ("TAGame.GameEvent_TA:MatchStartEpoch", Tag::Int64),
    ("TAGame.GameEvent_TA:MatchTypeClass", Tag::ActiveActor),
    ("TAGame.GameEvent_TA:ReplicatedGameStateTimeRemaining", Tag::Int),
    ("TAGame.GameEvent_TA:ReplicatedRoundCountDownNumber", Tag::Int),
    ("TAGame.GameEvent_TA:ReplicatedStateIndex", Tag::Byte),
    ("TAGame.GameEvent_TA:ReplicatedStateName", Tag::Int),
    ("TAGame.GameEvent_TA:RichPresenceString", Tag::String),
    ("TAGame.GameEvent_TA:bAllowReadyUp", Tag::Boolean),
    ("TAGame.GameEvent_TA:bAlwaysShowMatchTypeLabel", Tag::Boolean),
    ("TAGame.GameEvent_TA:bCanVoteToForfeit", Tag::Boolean),
    ("TAGame.GameEvent_TA:bHasLeaveMatchPenalty", Tag::Boolean),
    ("TAGame.GameEvent_TA:bIsBotMatch", Tag::Boolean),
    ("TAGame.GameEvent_Team_TA:MaxTeamSize", Tag::Int),
    ("TAGame.GameEvent_Team_TA:bDisableMutingOtherTeam", Tag::Boolean),
    ("TAGame.GameEvent_Team_TA:bDisableQuickChat", Tag::Boolean),
    ("TAGame.GameEvent_Team_TA:bForfeit", Tag::Boolean),
    ("TAGame.KeepUpIndicator_TA:ComponentOwner", Tag::ActiveActor),
    ("TAGame.MaxTimeWarningData_TA:EndGameEpochTime", Tag::Int64),
    ("TAGame.MaxTimeWarningData_TA:EndGameWarningEpochTime", Tag::Int64),
    ("TAGame.PRI_KnockOut_TA:Blocks", Tag::Int),
    ("TAGame.PRI_KnockOut_TA:DamageCaused", Tag::Int),
    ("TAGame.PRI_KnockOut_TA:EliminationOrder", Tag::Int),
    ("TAGame.PRI_KnockOut_TA:Grabs", Tag::Int),
    ("TAGame.PRI_KnockOut_TA:Hits", Tag::Int),
    ("TAGame.PRI_KnockOut_TA:KnockoutDeaths", Tag::Int),
    ("TAGame.PRI_KnockOut_TA:Knockouts", Tag::Int),
    ("TAGame.PRI_KnockOut_TA:bIsActiveMVP", Tag::Boolean),
    ("TAGame.PRI_KnockOut_TA:bIsEliminated", Tag::Boolean),
    ("TAGame.PRI_TA:AnonymizedName", Tag::String),
    ("TAGame.PRI_TA:BotBannerProductID", Tag::Int),
    ("TAGame.PRI_TA:BotProductName", Tag::Int),
    ("TAGame.PRI_TA:CameraPitch", Tag::Byte),
    ("TAGame.PRI_TA:CameraSettings", Tag::CamSettings),
    ("TAGame.PRI_TA:CameraYaw", Tag::Byte),
    ("TAGame.PRI_TA:CarDemolitions", Tag::Int),
    ("TAGame.PRI_TA:ClientLoadout", Tag::Loadout),
    ("TAGame.PRI_TA:ClientLoadoutOnline", Tag::LoadoutOnline),
    ("TAGame.PRI_TA:ClientLoadouts", Tag::TeamLoadout),
    ("TAGame.PRI_TA:ClientLoadoutsOnline", Tag::LoadoutsOnline),
    ("TAGame.PRI_TA:ClubID", Tag::Int64),
    ("TAGame.PRI_TA:CurrentVoiceRoom", Tag::String),
    ("TAGame.PRI_TA:EpicPUID", Tag::String),
    ("TAGame.PRI_TA:KeepUpPossessions", Tag::Int),
    ("TAGame.PRI_TA:MatchAssists", Tag::Int),
    ("TAGame.PRI_TA:MatchBreakoutDamage", Tag::Int),
    ("TAGame.PRI_TA:MatchDemolishes", Tag::Int),
    ("TAGame.PRI_TA:MatchGoals", Tag::Int),
    ("TAGame.PRI_TA:MatchSaves", Tag::Int),
    ("TAGame.PRI_TA:MatchScore", Tag::Int),
    ("TAGame.PRI_TA:MatchShots", Tag::Int),
    ("TAGame.PRI_TA:MaxTimeTillItem", Tag::Int),
    ("TAGame.PRI_TA:PartyLeader", Tag::PartyLeader),
    ("TAGame.PRI_TA:PawnType", Tag::Byte),
    ("TAGame.PRI_TA:PersistentCamera", Tag::ActiveActor),
    ("TAGame.PRI_TA:PlayerHistoryKey", Tag::PlayerHistoryKey),
    ("TAGame.PRI_TA:PlayerHistoryValid", Tag::Boolean),
    ("TAGame.PRI_TA:PossessionClears", Tag::Int),
    ("TAGame.PRI_TA:PossessionDenials", Tag::Int),
    ("TAGame.PRI_TA:PossessionSteals", Tag::Int),
    ("TAGame.PRI_TA:PrimaryTitle", Tag::Title),
    ("TAGame.PRI_TA:RepStatTitles", Tag::RepStatTitle),
    ("TAGame.PRI_TA:ReplicatedGameEvent", Tag::ActiveActor),
    ("TAGame.PRI_TA:ReplicatedWorstNetQualityBeyondLatency", Tag::Byte),
    ("TAGame.PRI_TA:SecondaryTitle", Tag::Title),
    ("TAGame.PRI_TA:SelfDemolitions", Tag::Int),
    ("TAGame.PRI_TA:SkillTier", Tag::FlaggedByte),
    ("TAGame.PRI_TA:SpectatorShortcut", Tag::Int),
    ("TAGame.PRI_TA:SteeringSensitivity", Tag::Float),
    ("TAGame.PRI_TA:TimeTillItem", Tag::Int),
    ("TAGame.PRI_TA:Title", Tag::Int),
    ("TAGame.PRI_TA:TotalGameTimePlayed", Tag::Float),
    ("TAGame.PRI_TA:TotalIdleTime", Tag::Float),
    ("TAGame.PRI_TA:TotalXP", Tag::Int),
    ("TAGame.PRI_TA:ViralItemActor", Tag::ActiveActor),
    ("TAGame.PRI_TA:bAnonymizeToOpponents", Tag::Boolean),
    ("TAGame.PRI_TA:bAnonymizeToTeammates", Tag::Boolean),
    ("TAGame.PRI_TA:bIdleBanned", Tag::Boolean),
    ("TAGame.PRI_TA:bIsDistracted", Tag::Boolean),
    ("TAGame.PRI_TA:bIsInSplitScreen", Tag::Boolean),
    ("TAGame.PRI_TA:bMatchMVP", Tag::Boolean),
    ("TAGame.PRI_TA:bOnlineLoadoutSet", Tag::Boolean),
    ("TAGame.PRI_TA:bOnlineLoadoutsSet", Tag::Boolean),
    ("TAGame.PRI_TA:bReady", Tag::Boolean),
    ("TAGame.PRI_TA:bReceivedAnonymizationSettings", Tag::Boolean),
    ("TAGame.PRI_TA:bUsingBehindView", Tag::Boolean),
    ("TAGame.PRI_TA:bUsingItems", Tag::Boolean),
    ("TAGame.PRI_TA:bUsingSecondaryCamera", Tag::Boolean),
    ("TAGame.PickupTimer_TA:MaxTimeTillItem", Tag::Int),
    ("TAGame.PickupTimer_TA:TimeTillItem", Tag::Int),
    ("TAGame.PlayerStart_Platform_TA:bActive", Tag::Boolean),
    ("TAGame.RBActor_TA:ReplicatedRBState", Tag::RigidBody),
    ("TAGame.RBActor_TA:TeleportCounter", Tag::Byte),
    ("TAGame.RBActor_TA:WeldedInfo", Tag::Welded),
    ("TAGame.RBActor_TA:bFrozen", Tag::Boolean),
    ("TAGame.RBActor_TA:bIgnoreSyncing", Tag::Boolean),
    ("TAGame.RBActor_TA:bReplayActor", Tag::Boolean),
    ("TAGame.RumblePickups_TA:AttachedPickup", Tag::ActiveActor),
    ("TAGame.RumblePickups_TA:ConcurrentItemCount", Tag::Int),
    ("TAGame.RumblePickups_TA:PickupInfo", Tag::PickupInfo),
    ("TAGame.SpecialPickup_BallFreeze_TA:RepOrigSpeed", Tag::Float),
    ("TAGame.SpecialPickup_BallVelcro_TA:AttachTime", Tag::Float),
    ("TAGame.SpecialPickup_BallVelcro_TA:BreakTime", Tag::Float),
    ("TAGame.SpecialPickup_BallVelcro_TA:bBroken", Tag::Boolean),
    ("TAGame.SpecialPickup_BallVelcro_TA:bHit", Tag::Boolean),
    ("TAGame.SpecialPickup_Football_TA:WeldedBall", Tag::ActiveActor),
    ("TAGame.SpecialPickup_Rugby_TA:bBallWelded", Tag::Boolean),
    ("TAGame.SpecialPickup_Targeted_TA:Targeted", Tag::ActiveActor),
    ("TAGame.Stunlock_TA:Car", Tag::ActiveActor),
    ("TAGame.Stunlock_TA:MashTime", Tag::Float),
    ("TAGame.Stunlock_TA:MaxStunTime", Tag::Float),
    ("TAGame.Stunlock_TA:StunTimeRemaining", Tag::Float),
    ("TAGame.Team_Soccar_TA:GameScore", Tag::Int),
    ("TAGame.Team_TA:ClubColors", Tag::ClubColors),
    ("TAGame.Team_TA:ClubID", Tag::Int64),
    ("TAGame.Team_TA:CustomTeamName", Tag::String),
    ("TAGame.Team_TA:Difficulty", Tag::Int),
    ("TAGame.Team_TA:GameEvent", Tag::ActiveActor),
    ("TAGame.Team_TA:LogoData", Tag::LogoData),
    ("TAGame.VehiclePickup_TA:NewReplicatedPickupData", Tag::PickupNew),
    ("TAGame.VehiclePickup_TA:ReplicatedPickupData", Tag::Pickup),
    ("TAGame.VehiclePickup_TA:bNoPickup", Tag::Boolean),
    ("TAGame.Vehicle_TA:InputRestriction", Tag::Byte),
    ("TAGame.Vehicle_TA:ReplicatedSteer", Tag::Byte),
    ("TAGame.Vehicle_TA:ReplicatedThrottle", Tag::Byte),
    ("TAGame.Vehicle_TA:bDriving", Tag::Boolean),
    ("TAGame.Vehicle_TA:bHasPostMatchCelebration", Tag::Boolean),
    ("TAGame.Vehicle_TA:bPodiumMode", Tag::Boolean),
    ("TAGame.Vehicle_TA:bReplicatedHandbrake", Tag::Boolean),
    ("TAGame.ViralItemActor_TA:ClientFXInfectedType", Tag::Byte),
    ("TAGame.ViralItemActor_TA:InfectedStatus", Tag::Byte),
];

pub static PARENTS: &[(&str, &str)] = &[
    ("Archetypes.Ball.BallComponent_KeepUp", "TAGame.BallKeepUpComponent_TA"),
    ("Archetypes.Ball.Ball_Anniversary", "TAGame.Ball_TA"),
    ("Archetypes.Ball.Ball_BasketBall", "TAGame.Ball_TA"),
    ("Archetypes.Ball.Ball_BasketBall_Mutator", "TAGame.Ball_TA"),
    ("Archetypes.Ball.Ball_Basketball", "TAGame.Ball_TA"),
    ("Archetypes.Ball.Ball_Beachball", "TAGame.Ball_TA"),
    ("Archetypes.Ball.Ball_Breakout", "TAGame.Ball_Breakout_TA"),
    ("Archetypes.Ball.Ball_Default", "TAGame.Ball_TA"),
    ("Archetypes.Ball.Ball_Ekin", "TAGame.Ball_TA"),
    ("Archetypes.Ball.Ball_Fire", "TAGame.Ball_Fire_TA"),
    ("Archetypes.Ball.Ball_Fire_Obstacle", "TAGame.Ball_Fire_TA"),
    ("Archetypes.Ball.Ball_Football", "TAGame.Ball_TA"),
    ("Archetypes.Ball.Ball_God", "TAGame.Ball_God_TA"),
    ("Archetypes.Ball.Ball_Haunted", "TAGame.Ball_Haunted_TA"),
    ("Archetypes.Ball.Ball_PizzaPuck", "TAGame.Ball_TA"),
    ("Archetypes.Ball.Ball_Puck", "TAGame.Ball_TA"),
    ("Archetypes.Ball.Ball_RingSpawner", "TAGame.Ball_Spawner_TA"),
    ("Archetypes.Ball.Ball_Score", "TAGame.Ball_Breakout_TA"),
    ("Archetypes.Ball.Ball_Shoe", "TAGame.Ball_TA"),
    ("Archetypes.Ball.Ball_SpookyBalloon", "TAGame.Ball_TA"),
    ("Archetypes.Ball.Ball_Strike", "TAGame.Ball_TA"),
    ("Archetypes.Ball.Ball_Training", "TAGame.Ball_Tutorial_TA"),
    ("Archetypes.Ball.Ball_Trajectory", "TAGame.Ball_Trajectory_TA"),
    ("Archetypes.Ball.Ball_Tutorial", "TAGame.Ball_Tutorial_TA"),
    ("Archetypes.Ball.Ball_WorldCup", "TAGame.Ball_TA"),
    ("Archetypes.Ball.CubeBall", "TAGame.Ball_TA"),
    ("Archetypes.Ball.ball_luminousairplane", "TAGame.Ball_TA"),
    ("Archetypes.Car.Car_Default", "TAGame.Car_TA"),
    ("Archetypes.Car.Car_PostGameLobby", "TAGame.Car_Freeplay_TA"),
    ("Archetypes.CarComponents.CarComponent_Boost", "TAGame.CarComponent_Boost_TA"),
    ("Archetypes.CarComponents.CarComponent_Dodge", "TAGame.CarComponent_Dodge_TA"),
    ("Archetypes.CarComponents.CarComponent_DoubleJump", "TAGame.CarComponent_DoubleJump_TA"),
    ("Archetypes.CarComponents.CarComponent_FlipCar", "TAGame.CarComponent_FlipCar_TA"),
    ("Archetypes.CarComponents.CarComponent_Jump", "TAGame.CarComponent_Jump_TA"),
    ("Archetypes.CarComponents.CarComponent_TerritoryDemolish", "TAGame.CarComponent_TerritoryDemolish_TA"),
    ("Archetypes.GameEvent.GameEvent_Basketball", "TAGame.GameEvent_Soccar_TA"),
    ("Archetypes.GameEvent.GameEvent_BasketballPrivate", "TAGame.GameEvent_SoccarPrivate_TA"),
    ("Archetypes.GameEvent.GameEvent_BasketballSplitscreen", "TAGame.GameEvent_SoccarSplitscreen_TA"),
    ("Archetypes.GameEvent.GameEvent_Breakout", "TAGame.GameEvent_Breakout_TA"),
    ("Archetypes.GameEvent.GameEvent_FTE_Part1_Prime", "TAGame.GameEvent_FTE_TA"),
    ("Archetypes.GameEvent.GameEvent_Hockey", "TAGame.GameEvent_Soccar_TA"),
    ("Archetypes.GameEvent.GameEvent_HockeyPrivate", "TAGame.GameEvent_SoccarPrivate_TA"),
    ("Archetypes.GameEvent.GameEvent_HockeySplitscreen", "TAGame.GameEvent_SoccarSplitscreen_TA"),
    ("Archetypes.GameEvent.GameEvent_Items", "TAGame.GameEvent_Soccar_TA"),
    ("Archetypes.GameEvent.GameEvent_Season", "TAGame.GameEvent_Season_TA"),
    ("Archetypes.GameEvent.GameEvent_Season:CarArchetype", "TAGame.Car_Season_TA"),
    ("Archetypes.GameEvent.GameEvent_Soccar", "TAGame.GameEvent_Soccar_TA"),
    ("Archetypes.GameEvent.GameEvent_SoccarLan", "TAGame.GameEvent_Soccar_TA"),
    ("Archetypes.GameEvent.GameEvent_SoccarPrivate", "TAGame.GameEvent_SoccarPrivate_TA"),
    ("Archetypes.GameEvent.GameEvent_SoccarSplitscreen", "TAGame.GameEvent_SoccarSplitscreen_TA"),
    ("Archetypes.GameEvent.GameEvent_Tutorial_Advanced", "TAGame.GameEvent_Tutorial_Advanced_TA"),
    ("Archetypes.GameEvent.GameEvent_Tutorial_Basic", "TAGame.GameEvent_Tutorial_Basic_TA"),
    ("Archetypes.GameEvent.GameEvent_Tutorial_FreePlay", "TAGame.GameEvent_Tutorial_FreePlay_TA"),
    ("Archetypes.KnockOut.GameEvent_Knockout", "TAGame.GameEvent_KnockOut_TA"),
    ("Archetypes.KnockOut.GameEvent_Knockout:CarArchetype", "TAGame.Car_KnockOut_TA"),
    ("Archetypes.KnockOut.GameEvent_Knockout:CarArchetype.Boost", "TAGame.CarComponent_Boost_KO_TA"),
    ("Archetypes.KnockOut.GameEvent_Knockout:CarArchetype.Dodge", "TAGame.CarComponent_Dodge_KO_TA"),
    ("Archetypes.KnockOut.GameEvent_Knockout:CarArchetype.DoubleJump", "TAGame.CarComponent_DoubleJump_TA"),
    ("Archetypes.KnockOut.GameEvent_Knockout:CarArchetype.Flip", "TAGame.CarComponent_FlipCar_TA"),
    ("Archetypes.KnockOut.GameEvent_Knockout:CarArchetype.Jump", "TAGame.CarComponent_Jump_TA"),
    ("Archetypes.KnockOut.GameEvent_Knockout:CarArchetype.StunlockArchetype", "TAGame.Stunlock_TA"),
    ("Archetypes.KnockOut.GameEvent_Knockout:CarArchetype.Torque", "TAGame.CarComponent_Torque_TA"),
    ("Archetypes.Misc.KeepUpIndicator", "TAGame.KeepUpIndicator_TA"),
    ("Archetypes.Mutators.Mutator_Robin:AutoFlip", "TAGame.CarComponent_FlipCar_TA"),
    ("Archetypes.Mutators.Mutator_Robin:DoubleJump", "TAGame.CarComponent_DoubleJump_Robin_TA"),
    ("Archetypes.Mutators.Mutator_Robin:Jump", "TAGame.CarComponent_Jump_Robin_TA"),
    ("Archetypes.Mutators.SubRules.ItemsMode_RPS:DispenserArchetype.ItemPool.Obj", "TAGame.SpecialPickup_BallCarSpring_TA"),
    ("Archetypes.Mutators.SubRules.ItemsMode_RPS:DispenserArchetype.ItemPool.Obj_1", "TAGame.SpecialPickup_BallCarSpring_TA"),
    ("Archetypes.Mutators.SubRules.ItemsMode_RPS:DispenserArchetype.ItemPool.Obj_2", "TAGame.SpecialPickup_BallFreeze_TA"),
    ("Archetypes.SpecialPickups.BM.SpecialPickup_BallFreeze_BM", "TAGame.SpecialPickup_BallFreeze_TA"),
    ("Archetypes.SpecialPickups.SpecialPickup_BallFreeze", "TAGame.SpecialPickup_BallFreeze_TA"),
    ("Archetypes.SpecialPickups.SpecialPickup_BallGrapplingHook", "TAGame.SpecialPickup_GrapplingHook_TA"),
    ("Archetypes.SpecialPickups.SpecialPickup_BallLasso", "TAGame.SpecialPickup_BallLasso_TA"),
    ("Archetypes.SpecialPickups.SpecialPickup_BallSpring", "TAGame.SpecialPickup_BallCarSpring_TA"),
    ("Archetypes.SpecialPickups.SpecialPickup_BallVelcro", "TAGame.SpecialPickup_BallVelcro_TA"),
    ("Archetypes.SpecialPickups.SpecialPickup_Batarang", "TAGame.SpecialPickup_Batarang_TA"),
    ("Archetypes.SpecialPickups.SpecialPickup_BoostOverride", "TAGame.SpecialPickup_BoostOverride_TA"),
    ("Archetypes.SpecialPickups.SpecialPickup_CarSpring", "TAGame.SpecialPickup_BallCarSpring_TA"),
    ("Archetypes.SpecialPickups.SpecialPickup_Football", "TAGame.SpecialPickup_Football_TA"),
    ("Archetypes.SpecialPickups.SpecialPickup_GravityWell", "TAGame.SpecialPickup_BallGravity_TA"),
    ("Archetypes.SpecialPickups.SpecialPickup_HauntedBallBeam", "TAGame.SpecialPickup_HauntedBallBeam_TA"),
    ("Archetypes.SpecialPickups.SpecialPickup_Rugby", "TAGame.SpecialPickup_Rugby_TA"),
    ("Archetypes.SpecialPickups.SpecialPickup_RugbyLightDark", "TAGame.SpecialPickup_Rugby_TA"),
    ("Archetypes.SpecialPickups.SpecialPickup_StrongHit", "TAGame.SpecialPickup_HitForce_TA"),
    ("Archetypes.SpecialPickups.SpecialPickup_Swapper", "TAGame.SpecialPickup_Swapper_TA"),
    ("Archetypes.SpecialPickups.SpecialPickup_Tornado", "TAGame.SpecialPickup_Tornado_TA"),
    ("Archetypes.Teams.Team0", "TAGame.Team_Soccar_TA"),
    ("Archetypes.Teams.Team1", "TAGame.Team_Soccar_TA"),
    ("Archetypes.Teams.TeamWhite0", "TAGame.Team_Freeplay_TA"),
    ("Archetypes.Teams.TeamWhite1", "TAGame.Team_Freeplay_TA"),
    ("Archetypes.Tutorial.Cannon", "TAGame.Cannon_TA"),
    ("Engine.Actor", "Core.Object"),
    ("Engine.GameReplicationInfo", "Engine.ReplicationInfo"),
    ("Engine.Info", "Engine.Actor"),
    ("Engine.NavigationPoint", "Engine.Actor"),
    ("Engine.Pawn", "Engine.Actor"),
    ("Engine.PlayerReplicationInfo", "Engine.ReplicationInfo"),
    ("Engine.PlayerStart", "Engine.NavigationPoint"),
    ("Engine.ReplicatedActor_ORS", "Engine.Actor"),
    ("Engine.ReplicationInfo", "Engine.Info"),
    ("Engine.TeamInfo", "Engine.Info"),
    ("Engine.WorldInfo", "Engine.ZoneInfo"),
    ("Engine.ZoneInfo", "Engine.Info"),
    ("GameInfo_Basketball.GameInfo.GameInfo_Basketball:Archetype", "TAGame.GameEvent_Soccar_TA"),
    ("GameInfo_Basketball.GameInfo.GameInfo_Basketball:GameReplicationInfoArchetype", "TAGame.GRI_TA"),
    ("GameInfo_Breakout.GameInfo.GameInfo_Breakout:GameReplicationInfoArchetype", "TAGame.GRI_TA"),
    ("GameInfo_FTE.GameInfo.GameInfo_FTE:GameReplicationInfoArchetype", "TAGame.GRI_TA"),
    ("GameInfo_FootBall.GameInfo.GameInfo_FootBall:Archetype", "TAGame.GameEvent_Football_TA"),
    ("GameInfo_FootBall.GameInfo.GameInfo_FootBall:GameReplicationInfoArchetype", "TAGame.GRI_TA"),
    ("GameInfo_GodBall.GameInfo.GameInfo_GodBall:Archetype", "TAGame.GameEvent_GodBall_TA"),
    ("GameInfo_GodBall.GameInfo.GameInfo_GodBall:GameReplicationInfoArchetype", "TAGame.GRI_TA"),
    ("GameInfo_HeatseekerTerritory.GameInfo.GameInfo_HeatseekerTerritory:Archetype", "TAGame.GameEvent_Soccar_TA"),
    ("GameInfo_HeatseekerTerritory.GameInfo.GameInfo_HeatseekerTerritory:GameReplicationInfoArchetype", "TAGame.GRI_TA"),
    ("GameInfo_Hops.GameInfo.GameInfo_Hops:Archetype", "TAGame.GameEvent_Soccar_TA"),
    ("GameInfo_Hops.GameInfo.GameInfo_Hops:GameReplicationInfoArchetype", "TAGame.GRI_TA"),
    ("GameInfo_Items.GameInfo.GameInfo_Items:GameReplicationInfoArchetype", "TAGame.GRI_TA"),
    ("GameInfo_KnockOut.KnockOut.GameInfo_KnockOut:GameReplicationInfoArchetype", "TAGame.GRI_TA"),
    ("GameInfo_LTM_AprilFool.GameInfo.GameInfo_LTM_AprilFool:Archetype", "TAGame.GameEvent_Soccar_TA"),
    ("GameInfo_LTM_AprilFool.GameInfo.GameInfo_LTM_AprilFool:GameReplicationInfoArchetype", "TAGame.GRI_TA"),
    ("GameInfo_LTM_BeachBall.GameInfo.GameInfo_LTM_BeachBall:Archetype", "TAGame.GameEvent_Soccar_TA"),
    ("GameInfo_LTM_BeachBall.GameInfo.GameInfo_LTM_BeachBall:GameReplicationInfoArchetype", "TAGame.GRI_TA"),
    ("GameInfo_LTM_DropshotRumble.GameInfo.GameInfo_LTM_DropshotRumble:Archetype", "TAGame.GameEvent_Soccar_TA"),
    ("GameInfo_LTM_DropshotRumble.GameInfo.GameInfo_LTM_DropshotRumble:GameReplicationInfoArchetype", "TAGame.GRI_TA"),
    ("GameInfo_LTM_SpeedDemon.GameInfo.GameInfo_LTM_SpeedDemon:Archetype", "TAGame.GameEvent_Soccar_TA"),
    ("GameInfo_LTM_SpeedDemon.GameInfo.GameInfo_LTM_SpeedDemon:GameReplicationInfoArchetype", "TAGame.GRI_TA"),
    ("GameInfo_LTM_SpikeRush.GameInfo.GameInfo_LTM_SpikeRush:Archetype", "TAGame.GameEvent_Soccar_TA"),
    ("GameInfo_LTM_SpikeRush.GameInfo.GameInfo_LTM_SpikeRush:GameReplicationInfoArchetype", "TAGame.GRI_TA"),
    ("GameInfo_LTM_SuperCube.GameInfo.GameInfo_LTM_SuperCube:Archetype", "TAGame.GameEvent_Soccar_TA"),
    ("GameInfo_LTM_SuperCube.GameInfo.GameInfo_LTM_SuperCube:GameReplicationInfoArchetype", "TAGame.GRI_TA"),
    ("GameInfo_MagnusFutball.GameInfo.GameInfo_MagnusFutball:Archetype", "TAGame.GameEvent_Soccar_TA"),
    ("GameInfo_MagnusFutball.GameInfo.GameInfo_MagnusFutball:GameReplicationInfoArchetype", "TAGame.GRI_TA"),
    ("GameInfo_Possession.GameInfo.GameInfo_Possession:Archetype", "TAGame.GameEvent_Soccar_TA"),
    ("GameInfo_Possession.GameInfo.GameInfo_Possession:GameReplicationInfoArchetype", "TAGame.GRI_TA"),
    ("GameInfo_Season.GameInfo.GameInfo_Season:GameReplicationInfoArchetype", "TAGame.GRI_TA"),
    ("GameInfo_SnowDayTerritory.GameInfo.GameInfo_SnowDayTerritory:Archetype", "TAGame.GameEvent_Territory_TA"),
    ("GameInfo_SnowDayTerritory.GameInfo.GameInfo_SnowDayTerritory:GameReplicationInfoArchetype", "TAGame.GRI_TA"),
    ("GameInfo_Soccar.GameInfo.GameInfo_Soccar:GameReplicationInfoArchetype", "TAGame.GRI_TA"),
    ("GameInfo_SpikeDrop.GameInfo.GameInfo_SpikeDrop:Archetype", "TAGame.GameEvent_Soccar_TA"),
    ("GameInfo_SpikeDrop.GameInfo.GameInfo_SpikeDrop:GameReplicationInfoArchetype", "TAGame.GRI_TA"),
    ("GameInfo_Territory.GameInfo.GameInfo_Territory:Archetype", "TAGame.GameEvent_Territory_TA"),
    ("GameInfo_Territory.GameInfo.GameInfo_Territory:GameReplicationInfoArchetype", "TAGame.GRI_TA"),
    ("GameInfo_Tutorial.GameEvent.GameEvent_Tutorial_Aerial", "TAGame.GameEvent_Training_Aerial_TA"),
    ("GameInfo_Tutorial.GameEvent.GameEvent_Tutorial_Goalie", "TAGame.GameEvent_Training_Goalie_TA"),
    ("GameInfo_Tutorial.GameEvent.GameEvent_Tutorial_Striker", "TAGame.GameEvent_Training_Striker_TA"),
    ("GameInfo_Tutorial.GameInfo.GameInfo_Tutorial:GameReplicationInfoArchetype", "TAGame.GRI_TA"),
    ("Gameinfo_Hockey.GameInfo.Gameinfo_Hockey:Archetype", "TAGame.GameEvent_Soccar_TA"),
    ("Gameinfo_Hockey.GameInfo.Gameinfo_Hockey:GameReplicationInfoArchetype", "TAGame.GRI_TA"),
    ("Haunted_TrainStation_P.TheWorld:PersistentLevel.HauntedBallTrapTrigger_TA_0", "TAGame.HauntedBallTrapTrigger_TA"),
    ("Haunted_TrainStation_P.TheWorld:PersistentLevel.HauntedBallTrapTrigger_TA_1", "TAGame.HauntedBallTrapTrigger_TA"),
    ("Mutators.Mutators.Mutators.FreePlay:CarArchetype", "TAGame.Car_Freeplay_TA"),
    ("Mutators.Mutators.Mutators.OnlineFreeplay:CarArchetype", "TAGame.Car_Freeplay_TA"),
    ("ProjectX.Default__NetModeReplicator_X", "ProjectX.NetModeReplicator_X"),
    ("ProjectX.GRI_X", "Engine.GameReplicationInfo"),
    ("ProjectX.NetModeReplicator_X", "Engine.ReplicationInfo"),
    ("ProjectX.PRI_X", "Engine.PlayerReplicationInfo"),
    ("ProjectX.Pawn_X", "Engine.Pawn"),
    ("TAGame.BallKeepUpComponent_TA", "Engine.ReplicatedActor_ORS"),
    ("TAGame.Ball_Breakout_TA", "TAGame.Ball_TA"),
    ("TAGame.Ball_Fire_TA", "TAGame.Ball_God_TA"),
    ("TAGame.Ball_God_TA", "TAGame.Ball_TA"),
    ("TAGame.Ball_Haunted_TA", "TAGame.Ball_TA"),
    ("TAGame.Ball_Spawner_TA", "Engine.Actor"),
    ("TAGame.Ball_TA", "TAGame.RBActor_TA"),
    ("TAGame.Ball_Trajectory_TA", "TAGame.Ball_TA"),
    ("TAGame.Ball_Tutorial_TA", "TAGame.Ball_TA"),
    ("TAGame.BreakOutActor_Platform_TA", "Engine.Actor"),
    ("TAGame.CameraSettingsActor_TA", "Engine.ReplicationInfo"),
    ("TAGame.Cannon_TA", "Engine.Actor"),
    ("TAGame.CarComponent_AirActivate_TA", "TAGame.CarComponent_TA"),
    ("TAGame.CarComponent_Boost_KO_TA", "TAGame.CarComponent_Boost_TA"),
    ("TAGame.CarComponent_Boost_TA", "TAGame.CarComponent_AirActivate_TA"),
    ("TAGame.CarComponent_Dodge_KO_TA", "TAGame.CarComponent_Dodge_TA"),
    ("TAGame.CarComponent_Dodge_TA", "TAGame.CarComponent_AirActivate_TA"),
    ("TAGame.CarComponent_DoubleJump_KO_TA", "TAGame.CarComponent_DoubleJump_TA"),
    ("TAGame.CarComponent_DoubleJump_Robin_TA", "TAGame.CarComponent_DoubleJump_TA"),
    ("TAGame.CarComponent_DoubleJump_TA", "TAGame.CarComponent_AirActivate_TA"),
    ("TAGame.CarComponent_FlipCar_TA", "TAGame.CarComponent_TA"),
    ("TAGame.CarComponent_Jump_Robin_TA", "TAGame.CarComponent_Jump_TA"),
    ("TAGame.CarComponent_Jump_TA", "TAGame.CarComponent_TA"),
    ("TAGame.CarComponent_TA", "Engine.ReplicationInfo"),
    ("TAGame.CarComponent_TerritoryDemolish_TA", "TAGame.CarComponent_TA"),
    ("TAGame.CarComponent_Torque_TA", "TAGame.CarComponent_TA"),
    ("TAGame.Car_Freeplay_TA", "TAGame.Car_TA"),
    ("TAGame.Car_KnockOut_TA", "TAGame.Car_TA"),
    ("TAGame.Car_Season_TA", "TAGame.Car_TA"),
    ("TAGame.Car_TA", "TAGame.Vehicle_TA"),
    ("TAGame.CrowdActor_TA", "Engine.ReplicationInfo"),
    ("TAGame.CrowdManager_TA", "Engine.ReplicationInfo"),
    ("TAGame.Default__CameraSettingsActor_TA", "TAGame.CameraSettingsActor_TA"),
    ("TAGame.Default__Car_TA", "TAGame.Car_TA"),
    ("TAGame.Default__FreeplayCommands_TA", "TAGame.FreeplayCommands_TA"),
    ("TAGame.Default__MaxTimeWarningData_TA", "TAGame.MaxTimeWarningData_TA"),
    ("TAGame.Default__PRI_Breakout_TA", "TAGame.PRI_Breakout_TA"),
    ("TAGame.Default__PRI_KnockOut_TA", "TAGame.PRI_KnockOut_TA"),
    ("TAGame.Default__PRI_Possession_TA", "TAGame.PRI_Possession_TA"),
    ("TAGame.Default__PRI_TA", "TAGame.PRI_TA"),
    ("TAGame.Default__PickupTimer_TA", "TAGame.PickupTimer_TA"),
    ("TAGame.Default__RumblePickups_TA", "TAGame.RumblePickups_TA"),
    ("TAGame.Default__TrackerWallDynamicMeshActor_TA", "TAGame.TrackerWallDynamicMeshActor_TA"),
    ("TAGame.Default__ViralItemActor_TA", "TAGame.ViralItemActor_TA"),
    ("TAGame.Default__VoteActor_TA", "TAGame.VoteActor_TA"),
    ("TAGame.DynamicMeshActor_TA", "Engine.Actor"),
    ("TAGame.FreeplayCommands_TA", "Engine.Actor"),
    ("TAGame.GRI_TA", "ProjectX.GRI_X"),
    ("TAGame.GameEvent_Breakout_TA", "TAGame.GameEvent_Soccar_TA"),
    ("TAGame.GameEvent_FTE_TA", "TAGame.GameEvent_Soccar_TA"),
    ("TAGame.GameEvent_Football_TA", "TAGame.GameEvent_Soccar_TA"),
    ("TAGame.GameEvent_GodBall_TA", "TAGame.GameEvent_Soccar_TA"),
    ("TAGame.GameEvent_KnockOut_TA", "TAGame.GameEvent_Soccar_TA"),
    ("TAGame.GameEvent_Season_TA", "TAGame.GameEvent_Soccar_TA"),
    ("TAGame.GameEvent_SoccarPrivate_TA", "TAGame.GameEvent_Soccar_TA"),
    ("TAGame.GameEvent_SoccarSplitscreen_TA", "TAGame.GameEvent_SoccarPrivate_TA"),
    ("TAGame.GameEvent_Soccar_TA", "TAGame.GameEvent_Team_TA"),
    ("TAGame.GameEvent_TA", "Engine.ReplicationInfo"),
    ("TAGame.GameEvent_Team_TA", "TAGame.GameEvent_TA"),
    ("TAGame.GameEvent_Territory_TA", "TAGame.GameEvent_Soccar_TA"),
    ("TAGame.GameEvent_Training_Aerial_TA", "TAGame.GameEvent_Training_TA"),
    ("TAGame.GameEvent_Training_Goalie_TA", "TAGame.GameEvent_Training_TA"),
    ("TAGame.GameEvent_Training_Striker_TA", "TAGame.GameEvent_Training_TA"),
    ("TAGame.GameEvent_Training_TA", "TAGame.GameEvent_Tutorial_TA"),
    ("TAGame.GameEvent_Tutorial_Advanced_TA", "TAGame.GameEvent_Tutorial_Basic_TA"),
    ("TAGame.GameEvent_Tutorial_Basic_TA", "TAGame.GameEvent_Tutorial_TA"),
    ("TAGame.GameEvent_Tutorial_FreePlay_TA", "TAGame.GameEvent_Tutorial_TA"),
    ("TAGame.GameEvent_Tutorial_TA", "TAGame.GameEvent_Soccar_TA"),
    ("TAGame.HauntedBallTrapTrigger_TA", "TAGame.DynamicMeshActor_TA"),
    ("TAGame.InMapScoreboard_TA", "Engine.Actor"),
    ("TAGame.KeepUpIndicator_TA", "Engine.Actor"),
    ("TAGame.MaxTimeWarningData_TA", "Engine.ReplicatedActor_ORS"),
    ("TAGame.PRI_Breakout_TA", "TAGame.PRI_TA"),
    ("TAGame.PRI_KnockOut_TA", "TAGame.PRI_TA"),
    ("TAGame.PRI_Possession_TA", "TAGame.PRI_TA"),
    ("TAGame.PRI_TA", "ProjectX.PRI_X"),
    ("TAGame.PickupTimer_TA", "TAGame.CarComponent_TA"),
    ("TAGame.PlayerStart_Platform_TA", "Engine.Actor"),
    ("TAGame.ProductAttribute_BlueprintCost_TA", "TAGame.ProductAttribute_TA"),
    ("TAGame.ProductAttribute_Blueprint_TA", "TAGame.ProductAttribute_TA"),
    ("TAGame.ProductAttribute_Certified_TA", "TAGame.ProductAttribute_TA"),
    ("TAGame.ProductAttribute_NoNotify_TA", "TAGame.ProductAttribute_TA"),
    ("TAGame.ProductAttribute_Painted_TA", "TAGame.ProductAttribute_TA"),
    ("TAGame.ProductAttribute_Quality_TA", "TAGame.ProductAttribute_TA"),
    ("TAGame.ProductAttribute_SpecialEdition_TA", "TAGame.ProductAttribute_TA"),
    ("TAGame.ProductAttribute_TA", "Core.Object"),
    ("TAGame.ProductAttribute_TeamEdition_TA", "TAGame.ProductAttribute_TA"),
    ("TAGame.ProductAttribute_TitleID_TA", "TAGame.ProductAttribute_TA"),
    ("TAGame.ProductAttribute_UserColor_TA", "TAGame.ProductAttribute_TA"),
    ("TAGame.RBActor_TA", "ProjectX.Pawn_X"),
    ("TAGame.Replay_Soccar_TA", "TAGame.Replay_TA"),
    ("TAGame.Replay_TA", "Core.Object"),
    ("TAGame.RumblePickups_TA", "Engine.Actor"),
    ("TAGame.SaveData_GameEditor_Training_TA", "Core.Object"),
    ("TAGame.SpecialPickup_BallCarSpring_TA", "TAGame.SpecialPickup_Spring_TA"),
    ("TAGame.SpecialPickup_BallFreeze_TA", "TAGame.SpecialPickup_Targeted_TA"),
    ("TAGame.SpecialPickup_BallGravity_TA", "TAGame.SpecialPickup_TA"),
    ("TAGame.SpecialPickup_BallLasso_TA", "TAGame.SpecialPickup_Spring_TA"),
    ("TAGame.SpecialPickup_BallVelcro_TA", "TAGame.SpecialPickup_TA"),
    ("TAGame.SpecialPickup_Batarang_TA", "TAGame.SpecialPickup_BallLasso_TA"),
    ("TAGame.SpecialPickup_BoostOverride_TA", "TAGame.SpecialPickup_Targeted_TA"),
    ("TAGame.SpecialPickup_Football_TA", "TAGame.SpecialPickup_TA"),
    ("TAGame.SpecialPickup_GrapplingHook_TA", "TAGame.SpecialPickup_Targeted_TA"),
    ("TAGame.SpecialPickup_HauntedBallBeam_TA", "TAGame.SpecialPickup_BallGravity_TA"),
    ("TAGame.SpecialPickup_HitForce_TA", "TAGame.SpecialPickup_TA"),
    ("TAGame.SpecialPickup_Rugby_TA", "TAGame.SpecialPickup_TA"),
    ("TAGame.SpecialPickup_Spring_TA", "TAGame.SpecialPickup_Targeted_TA"),
    ("TAGame.SpecialPickup_Swapper_TA", "TAGame.SpecialPickup_Targeted_TA"),
    ("TAGame.SpecialPickup_TA", "TAGame.CarComponent_TA"),
    ("TAGame.SpecialPickup_Targeted_TA", "TAGame.SpecialPickup_TA"),
    ("TAGame.SpecialPickup_Tornado_TA", "TAGame.SpecialPickup_TA"),
    ("TAGame.Stunlock_TA", "Engine.Actor"),
    ("TAGame.Team_Freeplay_TA", "TAGame.Team_Soccar_TA"),
    ("TAGame.Team_Soccar_TA", "TAGame.Team_TA"),
    ("TAGame.Team_TA", "Engine.TeamInfo"),
    ("TAGame.TrackerWallDynamicMeshActor_TA", "TAGame.DynamicMeshActor_TA"),
    ("TAGame.TrainingEditorData_TA", "Core.Object"),
    ("TAGame.VehiclePickup_Boost_TA", "TAGame.VehiclePickup_TA"),
    ("TAGame.VehiclePickup_TA", "Engine.ReplicationInfo"),
    ("TAGame.Vehicle_TA", "TAGame.RBActor_TA"),
    ("TAGame.ViralItemActor_TA", "Engine.Actor"),
    ("TheWorld:PersistentLevel.BreakOutActor_Platform_TA", "TAGame.BreakOutActor_Platform_TA"),
    ("TheWorld:PersistentLevel.CrowdActor_TA", "TAGame.CrowdActor_TA"),
    ("TheWorld:PersistentLevel.CrowdManager_TA", "TAGame.CrowdManager_TA"),
    ("TheWorld:PersistentLevel.InMapScoreboard_TA", "TAGame.InMapScoreboard_TA"),
    ("TheWorld:PersistentLevel.PlayerStart_Platform_TA", "TAGame.PlayerStart_Platform_TA"),
    ("TheWorld:PersistentLevel.VehiclePickup_Boost_TA", "TAGame.VehiclePickup_Boost_TA"),
    ("gameinfo_godball.GameInfo.gameinfo_godball:Archetype", "TAGame.GameEvent_GodBall_TA"),
    ("gameinfo_godball.GameInfo.gameinfo_godball:GameReplicationInfoArchetype", "TAGame.GRI_TA"),
];

pub fn attr(name: &str) -> Option<Tag> {
    ATTRS.binary_search_by(|p| p.0.cmp(name)).ok().map(|i| ATTRS[i].1)
}

pub fn parent(name: &str) -> Option<&'static str> {
    PARENTS.binary_search_by(|p| p.0.cmp(name)).ok().map(|i| PARENTS[i].1)
}

pub fn spawn(name: &str) -> Option<Spawn> {
    SPAWNS.iter().find(|p| p.0 == name).map(|p| p.1)
}
