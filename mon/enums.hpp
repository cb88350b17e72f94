// every enumeration of the library which has names, with its enumerators (written from the headers)
#pragma once
template <typename F> void eachEnum(const F& f) {
    { using E = powsybl::iidm::Branch::Side; f("Branch::Side", std::vector<std::pair<E, std::string>>{
        {E::ONE, "ONE"}, {E::TWO, "TWO"}
    }); }
    { using E = powsybl::iidm::ThreeWindingsTransformer::Side; f("ThreeWindingsTransformer::Side", std::vector<std::pair<E, std::string>>{
        {E::ONE, "ONE"}, {E::TWO, "TWO"}, {E::THREE, "THREE"}
    }); }
    { using E = powsybl::iidm::StaticVarCompensator::RegulationMode; f("StaticVarCompensator::RegulationMode", std::vector<std::pair<E, std::string>>{
        {E::VOLTAGE, "VOLTAGE"}, {E::REACTIVE_POWER, "REACTIVE_POWER"}, {E::OFF, "OFF"}
    }); }
    { using E = powsybl::iidm::TopologyLevel; f("TopologyLevel", std::vector<std::pair<E, std::string>>{
        {E::NODE_BREAKER, "NODE_BREAKER"}, {E::BUS_BREAKER, "BUS_BREAKER"}, {E::BUS_BRANCH, "BUS_BRANCH"}
    }); }
    { using E = powsybl::iidm::PhaseTapChanger::RegulationMode; f("PhaseTapChanger::RegulationMode", std::vector<std::pair<E, std::string>>{
        {E::CURRENT_LIMITER, "CURRENT_LIMITER"}, {E::ACTIVE_POWER_CONTROL, "ACTIVE_POWER_CONTROL"}, {E::FIXED_TAP, "FIXED_TAP"}
    }); }
    { using E = powsybl::iidm::HvdcLine::ConvertersMode; f("HvdcLine::ConvertersMode", std::vector<std::pair<E, std::string>>{
        {E::SIDE_1_RECTIFIER_SIDE_2_INVERTER, "SIDE_1_RECTIFIER_SIDE_2_INVERTER"}, {E::SIDE_1_INVERTER_SIDE_2_RECTIFIER, "SIDE_1_INVERTER_SIDE_2_RECTIFIER"}
    }); }
    { using E = powsybl::iidm::HvdcConverterStation::HvdcType; f("HvdcConverterStation::HvdcType", std::vector<std::pair<E, std::string>>{
        {E::VSC, "VSC"}, {E::LCC, "LCC"}
    }); }
    { using E = powsybl::iidm::EnergySource; f("EnergySource", std::vector<std::pair<E, std::string>>{
        {E::HYDRO, "HYDRO"}, {E::NUCLEAR, "NUCLEAR"}, {E::WIND, "WIND"}, {E::THERMAL, "THERMAL"}, {E::SOLAR, "SOLAR"}, {E::OTHER, "OTHER"}
    }); }
    { using E = powsybl::iidm::LoadType; f("LoadType", std::vector<std::pair<E, std::string>>{
        {E::UNDEFINED, "UNDEFINED"}, {E::AUXILIARY, "AUXILIARY"}, {E::FICTITIOUS, "FICTITIOUS"}
    }); }
    { using E = powsybl::iidm::SwitchKind; f("SwitchKind", std::vector<std::pair<E, std::string>>{
        {E::BREAKER, "BREAKER"}, {E::DISCONNECTOR, "DISCONNECTOR"}, {E::LOAD_BREAK_SWITCH, "LOAD_BREAK_SWITCH"}
    }); }
    { using E = powsybl::iidm::LimitType; f("LimitType", std::vector<std::pair<E, std::string>>{
        {E::ACTIVE_POWER, "ACTIVE_POWER"}, {E::APPARENT_POWER, "APPARENT_POWER"}, {E::CURRENT, "CURRENT"}, {E::VOLTAGE, "VOLTAGE"}
    }); }
    { using E = powsybl::iidm::ConnectableType; f("ConnectableType", std::vector<std::pair<E, std::string>>{
        {E::BUSBAR_SECTION, "BUSBAR_SECTION"}, {E::LINE, "LINE"}, {E::TWO_WINDINGS_TRANSFORMER, "TWO_WINDINGS_TRANSFORMER"}, {E::THREE_WINDINGS_TRANSFORMER, "THREE_WINDINGS_TRANSFORMER"}, {E::GENERATOR, "GENERATOR"}, {E::BATTERY, "BATTERY"}, {E::LOAD, "LOAD"}, {E::SHUNT_COMPENSATOR, "SHUNT_COMPENSATOR"},
        {E::DANGLING_LINE, "DANGLING_LINE"}, {E::STATIC_VAR_COMPENSATOR, "STATIC_VAR_COMPENSATOR"}, {E::HVDC_CONVERTER_STATION, "HVDC_CONVERTER_STATION"}
    }); }
    { using E = powsybl::iidm::ShuntCompensatorModelType; f("ShuntCompensatorModelType", std::vector<std::pair<E, std::string>>{
        {E::LINEAR, "LINEAR"}, {E::NON_LINEAR, "NON_LINEAR"}
    }); }
    { using E = powsybl::iidm::TopologyKind; f("TopologyKind", std::vector<std::pair<E, std::string>>{
        {E::NODE_BREAKER, "NODE_BREAKER"}, {E::BUS_BREAKER, "BUS_BREAKER"}
    }); }
    { using E = powsybl::iidm::converter::ExportOptions::IidmVersionIncompatibilityBehavior; f("converter::ExportOptions::IidmVersionIncompatibilityBehavior", std::vector<std::pair<E, std::string>>{
        {E::THROW_EXCEPTION, "THROW_EXCEPTION"}, {E::LOG_ERROR, "LOG_ERROR"}
    }); }
    { using E = powsybl::iidm::extensions::sld::ConnectablePosition::Direction; f("extensions::sld::ConnectablePosition::Direction", std::vector<std::pair<E, std::string>>{
        {E::TOP, "TOP"}, {E::BOTTOM, "BOTTOM"}, {E::UNDEFINED, "UNDEFINED"}
    }); }
    { using E = powsybl::iidm::extensions::sld::BranchStatus::Status; f("extensions::sld::BranchStatus::Status", std::vector<std::pair<E, std::string>>{
        {E::IN_OPERATION, "IN_OPERATION"}, {E::PLANNED_OUTAGE, "PLANNED_OUTAGE"}, {E::FORCED_OUTAGE, "FORCED_OUTAGE"}
    }); }
    { using E = powsybl::iidm::extensions::iidm::Measurement::Side; f("extensions::iidm::Measurement::Side", std::vector<std::pair<E, std::string>>{
        {E::ONE, "ONE"}, {E::TWO, "TWO"}, {E::THREE, "THREE"}
    }); }
    { using E = powsybl::iidm::extensions::iidm::Measurement::Type; f("extensions::iidm::Measurement::Type", std::vector<std::pair<E, std::string>>{
        {E::ANGLE, "ANGLE"}, {E::ACTIVE_POWER, "ACTIVE_POWER"}, {E::APPARENT_POWER, "APPARENT_POWER"}, {E::REACTIVE_POWER, "REACTIVE_POWER"}, {E::CURRENT, "CURRENT"}, {E::VOLTAGE, "VOLTAGE"}, {E::FREQUENCY, "FREQUENCY"}, {E::OTHER, "OTHER"}
    }); }
    { using E = powsybl::iidm::extensions::iidm::DiscreteMeasurement::Type; f("extensions::iidm::DiscreteMeasurement::Type", std::vector<std::pair<E, std::string>>{
        {E::TAP_POSITION, "TAP_POSITION"}, {E::SWITCH_POSITION, "SWITCH_POSITION"}, {E::SHUNT_COMPENSATOR_SECTION, "SHUNT_COMPENSATOR_SECTION"}, {E::OTHER, "OTHER"}
    }); }
    { using E = powsybl::iidm::extensions::iidm::DiscreteMeasurement::TapChanger; f("extensions::iidm::DiscreteMeasurement::TapChanger", std::vector<std::pair<E, std::string>>{
        {E::RATIO_TAP_CHANGER, "RATIO_TAP_CHANGER"}, {E::PHASE_TAP_CHANGER, "PHASE_TAP_CHANGER"}, {E::RATIO_TAP_CHANGER_1, "RATIO_TAP_CHANGER_1"}, {E::PHASE_TAP_CHANGER_1, "PHASE_TAP_CHANGER_1"}, {E::RATIO_TAP_CHANGER_2, "RATIO_TAP_CHANGER_2"}, {E::PHASE_TAP_CHANGER_2, "PHASE_TAP_CHANGER_2"}, {E::RATIO_TAP_CHANGER_3, "RATIO_TAP_CHANGER_3"}, {E::PHASE_TAP_CHANGER_3, "PHASE_TAP_CHANGER_3"}
    }); }
    { using E = powsybl::iidm::extensions::iidm::DiscreteMeasurement::ValueType; f("extensions::iidm::DiscreteMeasurement::ValueType", std::vector<std::pair<E, std::string>>{
        {E::BOOLEAN, "BOOLEAN"}, {E::INT, "INT"}, {E::STRING, "STRING"}
    }); }
    { using E = powsybl::iidm::extensions::entsoe::EntsoeGeographicalCode; f("extensions::entsoe::EntsoeGeographicalCode", std::vector<std::pair<E, std::string>>{
        {E::AL, "AL"}, {E::AT, "AT"}, {E::BA, "BA"}, {E::BE, "BE"}, {E::BG, "BG"}, {E::BY, "BY"}, {E::CH, "CH"}, {E::CZ, "CZ"},
        {E::DE, "DE"}, {E::D1, "D1"}, {E::D2, "D2"}, {E::D4, "D4"}, {E::D7, "D7"}, {E::D8, "D8"}, {E::DK, "DK"}, {E::ES, "ES"},
        {E::FR, "FR"}, {E::GB, "GB"}, {E::GR, "GR"}, {E::HR, "HR"}, {E::HU, "HU"}, {E::IT, "IT"}, {E::KS, "KS"}, {E::LU, "LU"},
        {E::LT, "LT"}, {E::MA, "MA"}, {E::MD, "MD"}, {E::ME, "ME"}, {E::MK, "MK"}, {E::NL, "NL"}, {E::NO, "NO"}, {E::PL, "PL"},
        {E::PT, "PT"}, {E::RO, "RO"}, {E::RS, "RS"}, {E::RU, "RU"}, {E::SE, "SE"}, {E::SK, "SK"}, {E::SI, "SI"}, {E::TR, "TR"},
        {E::UA, "UA"}, {E::UC, "UC"}, {E::UX, "UX"}
    }); }
    { using E = powsybl::iidm::Country; f("Country", std::vector<std::pair<E, std::string>>{
        {E::AF, "AF"}, {E::AX, "AX"}, {E::AL, "AL"}, {E::DZ, "DZ"}, {E::AS, "AS"}, {E::AD, "AD"}, {E::AO, "AO"}, {E::AI, "AI"},
        {E::AQ, "AQ"}, {E::AG, "AG"}, {E::AR, "AR"}, {E::AM, "AM"}, {E::AW, "AW"}, {E::AU, "AU"}, {E::AT, "AT"}, {E::AZ, "AZ"},
        {E::BS, "BS"}, {E::BH, "BH"}, {E::BD, "BD"}, {E::BB, "BB"}, {E::BY, "BY"}, {E::BE, "BE"}, {E::BZ, "BZ"}, {E::BJ, "BJ"},
        {E::BM, "BM"}, {E::BT, "BT"}, {E::BO, "BO"}, {E::BQ, "BQ"}, {E::BA, "BA"}, {E::BW, "BW"}, {E::BV, "BV"}, {E::BR, "BR"},
        {E::IO, "IO"}, {E::BN, "BN"}, {E::BG, "BG"}, {E::BF, "BF"}, {E::BI, "BI"}, {E::KH, "KH"}, {E::CM, "CM"}, {E::CA, "CA"},
        {E::CV, "CV"}, {E::KY, "KY"}, {E::CF, "CF"}, {E::TD, "TD"}, {E::CL, "CL"}, {E::CN, "CN"}, {E::CX, "CX"}, {E::CC, "CC"},
        {E::CO, "CO"}, {E::KM, "KM"}, {E::CG, "CG"}, {E::CD, "CD"}, {E::CK, "CK"}, {E::CR, "CR"}, {E::CI, "CI"}, {E::HR, "HR"},
        {E::CU, "CU"}, {E::CW, "CW"}, {E::CY, "CY"}, {E::CZ, "CZ"}, {E::DK, "DK"}, {E::DJ, "DJ"}, {E::DM, "DM"}, {E::DO, "DO"},
        {E::EC, "EC"}, {E::EG, "EG"}, {E::SV, "SV"}, {E::GQ, "GQ"}, {E::ER, "ER"}, {E::EE, "EE"}, {E::ET, "ET"}, {E::FK, "FK"},
        {E::FO, "FO"}, {E::FJ, "FJ"}, {E::FI, "FI"}, {E::FR, "FR"}, {E::GF, "GF"}, {E::PF, "PF"}, {E::TF, "TF"}, {E::GA, "GA"},
        {E::GM, "GM"}, {E::GE, "GE"}, {E::DE, "DE"}, {E::GH, "GH"}, {E::GI, "GI"}, {E::GR, "GR"}, {E::GL, "GL"}, {E::GD, "GD"},
        {E::GP, "GP"}, {E::GU, "GU"}, {E::GT, "GT"}, {E::GG, "GG"}, {E::GN, "GN"}, {E::GW, "GW"}, {E::GY, "GY"}, {E::HT, "HT"},
        {E::HM, "HM"}, {E::VA, "VA"}, {E::HN, "HN"}, {E::HK, "HK"}, {E::HU, "HU"}, {E::IS, "IS"}, {E::IN, "IN"}, {E::ID, "ID"},
        {E::IR, "IR"}, {E::IQ, "IQ"}, {E::IE, "IE"}, {E::IM, "IM"}, {E::IL, "IL"}, {E::IT, "IT"}, {E::JM, "JM"}, {E::JP, "JP"},
        {E::JE, "JE"}, {E::JO, "JO"}, {E::KZ, "KZ"}, {E::KE, "KE"}, {E::KI, "KI"}, {E::KP, "KP"}, {E::KR, "KR"}, {E::XK, "XK"},
        {E::KW, "KW"}, {E::KG, "KG"}, {E::LA, "LA"}, {E::LV, "LV"}, {E::LB, "LB"}, {E::LS, "LS"}, {E::LR, "LR"}, {E::LY, "LY"},
        {E::LI, "LI"}, {E::LT, "LT"}, {E::LU, "LU"}, {E::MO, "MO"}, {E::MK, "MK"}, {E::MG, "MG"}, {E::MW, "MW"}, {E::MY, "MY"},
        {E::MV, "MV"}, {E::ML, "ML"}, {E::MT, "MT"}, {E::MH, "MH"}, {E::MQ, "MQ"}, {E::MR, "MR"}, {E::MU, "MU"}, {E::YT, "YT"},
        {E::MX, "MX"}, {E::FM, "FM"}, {E::MD, "MD"}, {E::MC, "MC"}, {E::MN, "MN"}, {E::ME, "ME"}, {E::MS, "MS"}, {E::MA, "MA"},
        {E::MZ, "MZ"}, {E::MM, "MM"}, {E::NA, "NA"}, {E::NR, "NR"}, {E::NP, "NP"}, {E::NL, "NL"}, {E::NC, "NC"}, {E::NZ, "NZ"},
        {E::NI, "NI"}, {E::NE, "NE"}, {E::NG, "NG"}, {E::NU, "NU"}, {E::NF, "NF"}, {E::MP, "MP"}, {E::NO, "NO"}, {E::OM, "OM"},
        {E::PK, "PK"}, {E::PW, "PW"}, {E::PS, "PS"}, {E::PA, "PA"}, {E::PG, "PG"}, {E::PY, "PY"}, {E::PE, "PE"}, {E::PH, "PH"},
        {E::PN, "PN"}, {E::PL, "PL"}, {E::PT, "PT"}, {E::PR, "PR"}, {E::QA, "QA"}, {E::RE, "RE"}, {E::RO, "RO"}, {E::RU, "RU"},
        {E::RW, "RW"}, {E::BL, "BL"}, {E::SH, "SH"}, {E::KN, "KN"}, {E::LC, "LC"}, {E::MF, "MF"}, {E::PM, "PM"}, {E::VC, "VC"},
        {E::WS, "WS"}, {E::SM, "SM"}, {E::ST, "ST"}, {E::SA, "SA"}, {E::SN, "SN"}, {E::RS, "RS"}, {E::SC, "SC"}, {E::SL, "SL"},
        {E::SG, "SG"}, {E::SX, "SX"}, {E::SK, "SK"}, {E::SI, "SI"}, {E::SB, "SB"}, {E::SO, "SO"}, {E::ZA, "ZA"}, {E::GS, "GS"},
        {E::SS, "SS"}, {E::ES, "ES"}, {E::LK, "LK"}, {E::SD, "SD"}, {E::SR, "SR"}, {E::SJ, "SJ"}, {E::SZ, "SZ"}, {E::SE, "SE"},
        {E::CH, "CH"}, {E::SY, "SY"}, {E::TW, "TW"}, {E::TJ, "TJ"}, {E::TZ, "TZ"}, {E::TH, "TH"}, {E::TL, "TL"}, {E::TG, "TG"},
        {E::TK, "TK"}, {E::TO, "TO"}, {E::TT, "TT"}, {E::TN, "TN"}, {E::TR, "TR"}, {E::TM, "TM"}, {E::TC, "TC"}, {E::TV, "TV"},
        {E::UG, "UG"}, {E::UA, "UA"}, {E::AE, "AE"}, {E::GB, "GB"}, {E::US, "US"}, {E::UM, "UM"}, {E::UY, "UY"}, {E::UZ, "UZ"},
        {E::VU, "VU"}, {E::VE, "VE"}, {E::VN, "VN"}, {E::VG, "VG"}, {E::VI, "VI"}, {E::WF, "WF"}, {E::EH, "EH"}, {E::YE, "YE"},
        {E::ZM, "ZM"}, {E::ZW, "ZW"}
    }); }
}
