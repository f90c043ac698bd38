//! A fresh tag of any group.
use ringhopper::primitives::tag::PrimaryTagStructDyn;
pub fn new_tag(group: &str) -> Box<dyn PrimaryTagStructDyn> {
    match group {
        "actor" => Box::new(ringhopper::definitions::Actor::default()),
        "actor_variant" => Box::new(ringhopper::definitions::ActorVariant::default()),
        "antenna" => Box::new(ringhopper::definitions::Antenna::default()),
        "biped" => Box::new(ringhopper::definitions::Biped::default()),
        "bitmap" => Box::new(ringhopper::definitions::Bitmap::default()),
        "camera_track" => Box::new(ringhopper::definitions::CameraTrack::default()),
        "color_table" => Box::new(ringhopper::definitions::ColorTable::default()),
        "continuous_damage_effect" => Box::new(ringhopper::definitions::ContinuousDamageEffect::default()),
        "contrail" => Box::new(ringhopper::definitions::Contrail::default()),
        "damage_effect" => Box::new(ringhopper::definitions::DamageEffect::default()),
        "decal" => Box::new(ringhopper::definitions::Decal::default()),
        "detail_object_collection" => Box::new(ringhopper::definitions::DetailObjectCollection::default()),
        "device" => Box::new(ringhopper::definitions::Device::default()),
        "device_control" => Box::new(ringhopper::definitions::DeviceControl::default()),
        "device_light_fixture" => Box::new(ringhopper::definitions::DeviceLightFixture::default()),
        "device_machine" => Box::new(ringhopper::definitions::DeviceMachine::default()),
        "dialogue" => Box::new(ringhopper::definitions::Dialogue::default()),
        "effect" => Box::new(ringhopper::definitions::Effect::default()),
        "equipment" => Box::new(ringhopper::definitions::Equipment::default()),
        "flag" => Box::new(ringhopper::definitions::Flag::default()),
        "fog" => Box::new(ringhopper::definitions::Fog::default()),
        "font" => Box::new(ringhopper::definitions::Font::default()),
        "garbage" => Box::new(ringhopper::definitions::Garbage::default()),
        "gbxmodel" => Box::new(ringhopper::definitions::GBXModel::default()),
        "globals" => Box::new(ringhopper::definitions::Globals::default()),
        "glow" => Box::new(ringhopper::definitions::Glow::default()),
        "grenade_hud_interface" => Box::new(ringhopper::definitions::GrenadeHUDInterface::default()),
        "hud_globals" => Box::new(ringhopper::definitions::HUDGlobals::default()),
        "hud_message_text" => Box::new(ringhopper::definitions::HUDMessageText::default()),
        "hud_number" => Box::new(ringhopper::definitions::HUDNumber::default()),
        "input_device_defaults" => Box::new(ringhopper::definitions::InputDeviceDefaults::default()),
        "item" => Box::new(ringhopper::definitions::Item::default()),
        "item_collection" => Box::new(ringhopper::definitions::ItemCollection::default()),
        "lens_flare" => Box::new(ringhopper::definitions::LensFlare::default()),
        "light" => Box::new(ringhopper::definitions::Light::default()),
        "light_volume" => Box::new(ringhopper::definitions::LightVolume::default()),
        "lightning" => Box::new(ringhopper::definitions::Lightning::default()),
        "material_effects" => Box::new(ringhopper::definitions::MaterialEffects::default()),
        "meter" => Box::new(ringhopper::definitions::Meter::default()),
        "model" => Box::new(ringhopper::definitions::Model::default()),
        "model_animations" => Box::new(ringhopper::definitions::ModelAnimations::default()),
        "model_collision_geometry" => Box::new(ringhopper::definitions::ModelCollisionGeometry::default()),
        "multiplayer_scenario_description" => Box::new(ringhopper::definitions::MultiplayerScenarioDescription::default()),
        "object" => Box::new(ringhopper::definitions::Object::default()),
        "particle" => Box::new(ringhopper::definitions::Particle::default()),
        "particle_system" => Box::new(ringhopper::definitions::ParticleSystem::default()),
        "physics" => Box::new(ringhopper::definitions::Physics::default()),
        "placeholder" => Box::new(ringhopper::definitions::Placeholder::default()),
        "point_physics" => Box::new(ringhopper::definitions::PointPhysics::default()),
        "preferences_network_game" => Box::new(ringhopper::definitions::PreferencesNetworkGame::default()),
        "projectile" => Box::new(ringhopper::definitions::Projectile::default()),
        "scenario" => Box::new(ringhopper::definitions::Scenario::default()),
        "scenario_structure_bsp" => Box::new(ringhopper::definitions::ScenarioStructureBSP::default()),
        "scenery" => Box::new(ringhopper::definitions::Scenery::default()),
        "shader" => Box::new(ringhopper::definitions::Shader::default()),
        "shader_environment" => Box::new(ringhopper::definitions::ShaderEnvironment::default()),
        "shader_model" => Box::new(ringhopper::definitions::ShaderModel::default()),
        "shader_transparent_chicago" => Box::new(ringhopper::definitions::ShaderTransparentChicago::default()),
        "shader_transparent_chicago_extended" => Box::new(ringhopper::definitions::ShaderTransparentChicagoExtended::default()),
        "shader_transparent_generic" => Box::new(ringhopper::definitions::ShaderTransparentGeneric::default()),
        "shader_transparent_glass" => Box::new(ringhopper::definitions::ShaderTransparentGlass::default()),
        "shader_transparent_meter" => Box::new(ringhopper::definitions::ShaderTransparentMeter::default()),
        "shader_transparent_plasma" => Box::new(ringhopper::definitions::ShaderTransparentPlasma::default()),
        "shader_transparent_water" => Box::new(ringhopper::definitions::ShaderTransparentWater::default()),
        "sky" => Box::new(ringhopper::definitions::Sky::default()),
        "sound" => Box::new(ringhopper::definitions::Sound::default()),
        "sound_environment" => Box::new(ringhopper::definitions::SoundEnvironment::default()),
        "sound_looping" => Box::new(ringhopper::definitions::SoundLooping::default()),
        "sound_scenery" => Box::new(ringhopper::definitions::SoundScenery::default()),
        "string_list" => Box::new(ringhopper::definitions::StringList::default()),
        "tag_collection" => Box::new(ringhopper::definitions::TagCollection::default()),
        "ui_widget_collection" => Box::new(ringhopper::definitions::UIWidgetCollection::default()),
        "ui_widget_definition" => Box::new(ringhopper::definitions::UIWidgetDefinition::default()),
        "unicode_string_list" => Box::new(ringhopper::definitions::UnicodeStringList::default()),
        "unit" => Box::new(ringhopper::definitions::Unit::default()),
        "unit_hud_interface" => Box::new(ringhopper::definitions::UnitHUDInterface::default()),
        "vehicle" => Box::new(ringhopper::definitions::Vehicle::default()),
        "virtual_keyboard" => Box::new(ringhopper::definitions::VirtualKeyboard::default()),
        "weapon" => Box::new(ringhopper::definitions::Weapon::default()),
        "weapon_hud_interface" => Box::new(ringhopper::definitions::WeaponHUDInterface::default()),
        "weather_particle_system" => Box::new(ringhopper::definitions::WeatherParticleSystem::default()),
        "wind" => Box::new(ringhopper::definitions::Wind::default()),
        _ => panic!("unknown group {group}"),
    }
}
