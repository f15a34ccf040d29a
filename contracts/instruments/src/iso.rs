//! ISO 4217 and ISO 3166 tables, against the tables of the standards.
//! (currencies and alpha-3 codes as published with OpenJDK 17; numeric country codes of ISO 3166-1)
use rqv::*;
use RustQuant_instruments::fx::currency::{self, Currency};
use RustQuant_iso::iso_3166::{self, ISO_3166};

fn cur(c: Currency, code: &'static str, numeric: &'static str, minor: usize, fractions: usize) {
    ensure("alphabetic code", c.code().alphabetic() == code);
    ensure("numeric code", c.code().numeric() == numeric);
    ensure("minor unit", c.minor() == minor);
    ensure("fractions", c.fractions() == fractions);
}
fn ctry(c: ISO_3166, a2: &'static str, a3: &'static str, n: &'static str) {
    ensure("alpha-2", c.alpha_2() == a2);
    ensure("alpha-3", c.alpha_3() == a3);
    ensure("numeric", c.numeric() == n);
    ensure("found by its alpha-2 code", ISO_3166::from_alpha_2(a2) == Some(c));
}
pub fn rq_i01_currencies_0() {
    cur(currency::AED, "AED", "784", 2, 100);
    cur(currency::ANG, "ANG", "532", 2, 100);
    cur(currency::AWG, "AWG", "533", 2, 100);
    cur(currency::BDT, "BDT", "050", 2, 100);
    cur(currency::BMD, "BMD", "060", 2, 100);
    cur(currency::BSD, "BSD", "044", 2, 100);
    cur(currency::BZD, "BZD", "084", 2, 100);
    cur(currency::CLP, "CLP", "152", 0, 1);
    cur(currency::CUP, "CUP", "192", 2, 100);
    cur(currency::DKK, "DKK", "208", 2, 100);
    cur(currency::ERN, "ERN", "232", 2, 100);
    cur(currency::FKP, "FKP", "238", 2, 100);
    cur(currency::GIP, "GIP", "292", 2, 100);
    cur(currency::GYD, "GYD", "328", 2, 100);
    cur(currency::HTG, "HTG", "332", 2, 100);
    cur(currency::INR, "INR", "356", 2, 100);
    cur(currency::JMD, "JMD", "388", 2, 100);
    cur(currency::KGS, "KGS", "417", 2, 100);
    cur(currency::KRW, "KRW", "410", 0, 1);
    cur(currency::LAK, "LAK", "418", 2, 100);
    cur(currency::LSL, "LSL", "426", 2, 100);
    cur(currency::MGA, "MGA", "969", 2, 100);
    cur(currency::MOP, "MOP", "446", 2, 100);
    cur(currency::MWK, "MWK", "454", 2, 100);
    cur(currency::NAD, "NAD", "516", 2, 100);
    cur(currency::NPR, "NPR", "524", 2, 100);
    cur(currency::PEN, "PEN", "604", 2, 100);
    cur(currency::PLN, "PLN", "985", 2, 100);
    cur(currency::RSD, "RSD", "941", 2, 100);
    cur(currency::SAR, "SAR", "682", 2, 100);
    cur(currency::SEK, "SEK", "752", 2, 100);
    cur(currency::SLL, "SLL", "694", 2, 100);
    cur(currency::STN, "STN", "930", 2, 100);
    cur(currency::THB, "THB", "764", 2, 100);
    cur(currency::TOP, "TOP", "776", 2, 100);
    cur(currency::TZS, "TZS", "834", 2, 100);
    cur(currency::UYU, "UYU", "858", 2, 100);
    cur(currency::VUV, "VUV", "548", 0, 1);
    cur(currency::XOF, "XOF", "952", 0, 1);
    cur(currency::ZMW, "ZMW", "967", 2, 100);
}
pub fn rq_i01_currencies_1() {
    cur(currency::AFN, "AFN", "971", 2, 100);
    cur(currency::AOA, "AOA", "973", 2, 100);
    cur(currency::AZN, "AZN", "944", 2, 100);
    cur(currency::BGN, "BGN", "975", 2, 100);
    cur(currency::BND, "BND", "096", 2, 100);
    cur(currency::BTN, "BTN", "064", 2, 100);
    cur(currency::CAD, "CAD", "124", 2, 100);
    cur(currency::COP, "COP", "170", 2, 100);
    cur(currency::CVE, "CVE", "132", 2, 100);
    cur(currency::DOP, "DOP", "214", 2, 100);
    cur(currency::ETB, "ETB", "230", 2, 100);
    cur(currency::GBP, "GBP", "826", 2, 100);
    cur(currency::GMD, "GMD", "270", 2, 100);
    cur(currency::HKD, "HKD", "344", 2, 100);
    cur(currency::HUF, "HUF", "348", 2, 100);
    cur(currency::IQD, "IQD", "368", 3, 1000);
    cur(currency::JOD, "JOD", "400", 3, 1000);
    cur(currency::KHR, "KHR", "116", 2, 100);
    cur(currency::KWD, "KWD", "414", 3, 1000);
    cur(currency::LBP, "LBP", "422", 2, 100);
    cur(currency::LYD, "LYD", "434", 3, 1000);
    cur(currency::MKD, "MKD", "807", 2, 100);
    cur(currency::MRO, "MRO", "478", 2, 100);
    cur(currency::MXN, "MXN", "484", 2, 100);
    cur(currency::NGN, "NGN", "566", 2, 100);
    cur(currency::NZD, "NZD", "554", 2, 100);
    cur(currency::PGK, "PGK", "598", 2, 100);
    cur(currency::PYG, "PYG", "600", 0, 1);
    cur(currency::CNY, "CNY", "156", 2, 100);
    cur(currency::SBD, "SBD", "090", 2, 100);
    cur(currency::SGD, "SGD", "702", 2, 100);
    cur(currency::SOS, "SOS", "706", 2, 100);
    cur(currency::SVC, "SVC", "222", 2, 100);
    cur(currency::TJS, "TJS", "972", 2, 100);
    cur(currency::TRY, "TRY", "949", 2, 100);
    cur(currency::UAH, "UAH", "980", 2, 100);
    cur(currency::UZS, "UZS", "860", 2, 100);
    cur(currency::WST, "WST", "882", 2, 100);
    cur(currency::XPF, "XPF", "953", 0, 1);
    cur(currency::ZWL, "ZWL", "932", 2, 100);
}
pub fn rq_i01_currencies_2() {
    cur(currency::ALL, "ALL", "008", 2, 100);
    cur(currency::ARS, "ARS", "032", 2, 100);
    cur(currency::BAM, "BAM", "977", 2, 100);
    cur(currency::BHD, "BHD", "048", 3, 1000);
    cur(currency::BOB, "BOB", "068", 2, 100);
    cur(currency::BWP, "BWP", "072", 2, 100);
    cur(currency::CDF, "CDF", "976", 2, 100);
    cur(currency::CRC, "CRC", "188", 2, 100);
    cur(currency::CZK, "CZK", "203", 2, 100);
    cur(currency::DZD, "DZD", "012", 2, 100);
    cur(currency::EUR, "EUR", "978", 2, 100);
    cur(currency::GEL, "GEL", "981", 2, 100);
    cur(currency::GNF, "GNF", "324", 0, 1);
    cur(currency::HNL, "HNL", "340", 2, 100);
    cur(currency::IDR, "IDR", "360", 2, 100);
    cur(currency::IRR, "IRR", "364", 2, 100);
    cur(currency::JPY, "JPY", "392", 0, 1);
    cur(currency::KMF, "KMF", "174", 0, 1);
    cur(currency::KYD, "KYD", "136", 2, 100);
    cur(currency::LKR, "LKR", "144", 2, 100);
    cur(currency::MAD, "MAD", "504", 2, 100);
    cur(currency::MMK, "MMK", "104", 2, 100);
    cur(currency::MUR, "MUR", "480", 2, 100);
    cur(currency::MYR, "MYR", "458", 2, 100);
    cur(currency::NIO, "NIO", "558", 2, 100);
    cur(currency::OMR, "OMR", "512", 3, 1000);
    cur(currency::PHP, "PHP", "608", 2, 100);
    cur(currency::QAR, "QAR", "634", 2, 100);
    cur(currency::RUB, "RUB", "643", 2, 100);
    cur(currency::SCR, "SCR", "690", 2, 100);
    cur(currency::SHP, "SHP", "654", 2, 100);
    cur(currency::SRD, "SRD", "968", 2, 100);
    cur(currency::SYP, "SYP", "760", 2, 100);
    cur(currency::TMT, "TMT", "934", 2, 100);
    cur(currency::TTD, "TTD", "780", 2, 100);
    cur(currency::UGX, "UGX", "800", 0, 1);
    cur(currency::VES, "VES", "928", 2, 100);
    cur(currency::XAF, "XAF", "950", 0, 1);
    cur(currency::YER, "YER", "886", 2, 100);
}
pub fn rq_i01_currencies_3() {
    cur(currency::AMD, "AMD", "051", 2, 100);
    cur(currency::AUD, "AUD", "036", 2, 100);
    cur(currency::BBD, "BBD", "052", 2, 100);
    cur(currency::BIF, "BIF", "108", 0, 1);
    cur(currency::BRL, "BRL", "986", 2, 100);
    cur(currency::BYN, "BYN", "933", 2, 100);
    cur(currency::CHF, "CHF", "756", 2, 100);
    cur(currency::CUC, "CUC", "931", 2, 100);
    cur(currency::DJF, "DJF", "262", 0, 1);
    cur(currency::EGP, "EGP", "818", 2, 100);
    cur(currency::FJD, "FJD", "242", 2, 100);
    cur(currency::GHS, "GHS", "936", 2, 100);
    cur(currency::GTQ, "GTQ", "320", 2, 100);
    cur(currency::HRK, "HRK", "191", 2, 100);
    cur(currency::ILS, "ILS", "376", 2, 100);
    cur(currency::ISK, "ISK", "352", 0, 1);
    cur(currency::KES, "KES", "404", 2, 100);
    cur(currency::KPW, "KPW", "408", 2, 100);
    cur(currency::KZT, "KZT", "398", 2, 100);
    cur(currency::LRD, "LRD", "430", 2, 100);
    cur(currency::MDL, "MDL", "498", 2, 100);
    cur(currency::MNT, "MNT", "496", 2, 100);
    cur(currency::MVR, "MVR", "462", 2, 100);
    cur(currency::MZN, "MZN", "943", 2, 100);
    cur(currency::NOK, "NOK", "578", 2, 100);
    cur(currency::PAB, "PAB", "590", 2, 100);
    cur(currency::PKR, "PKR", "586", 2, 100);
    cur(currency::RON, "RON", "946", 2, 100);
    cur(currency::RWF, "RWF", "646", 0, 1);
    cur(currency::SDG, "SDG", "938", 2, 100);
    cur(currency::SLE, "SLE", "925", 2, 100);
    cur(currency::SSP, "SSP", "728", 2, 100);
    cur(currency::SZL, "SZL", "748", 2, 100);
    cur(currency::TND, "TND", "788", 3, 1000);
    cur(currency::TWD, "TWD", "901", 2, 100);
    cur(currency::USD, "USD", "840", 2, 100);
    cur(currency::VND, "VND", "704", 0, 1);
    cur(currency::XCD, "XCD", "951", 2, 100);
    cur(currency::ZAR, "ZAR", "710", 2, 100);
}
pub fn rq_i01_countries_0() {
    ctry(iso_3166::AFGHANISTAN, "AF", "AFG", "004");
    ctry(iso_3166::ANTARCTICA, "AQ", "ATA", "010");
    ctry(iso_3166::BAHAMAS, "BS", "BHS", "044");
    ctry(iso_3166::BERMUDA, "BM", "BMU", "060");
    ctry(iso_3166::BRITISH_INDIAN_OCEAN_TERRITORY, "IO", "IOT", "086");
    ctry(iso_3166::CANADA, "CA", "CAN", "124");
    ctry(iso_3166::COLOMBIA, "CO", "COL", "170");
    ctry(iso_3166::CUBA, "CU", "CUB", "192");
    ctry(iso_3166::ECUADOR, "EC", "ECU", "218");
    ctry(iso_3166::FALKLAND_ISLANDS, "FK", "FLK", "238");
    ctry(iso_3166::GABON, "GA", "GAB", "266");
    ctry(iso_3166::GRENADA, "GD", "GRD", "308");
    ctry(iso_3166::HAITI, "HT", "HTI", "332");
    ctry(iso_3166::INDONESIA, "ID", "IDN", "360");
    ctry(iso_3166::JAPAN, "JP", "JPN", "392");
    ctry(iso_3166::KUWAIT, "KW", "KWT", "414");
    ctry(iso_3166::LIECHTENSTEIN, "LI", "LIE", "438");
    ctry(iso_3166::MALI, "ML", "MLI", "466");
    ctry(iso_3166::MICRONESIA, "FM", "FSM", "583");
    ctry(iso_3166::MYANMAR, "MM", "MMR", "104");
    ctry(iso_3166::NIGER, "NE", "NER", "562");
    ctry(iso_3166::PAKISTAN, "PK", "PAK", "586");
    ctry(iso_3166::PITCAIRN, "PN", "PCN", "612");
    ctry(iso_3166::RWANDA, "RW", "RWA", "646");
    ctry(iso_3166::SAMOA, "WS", "WSM", "882");
    ctry(iso_3166::SINGAPORE, "SG", "SGP", "702");
    ctry(iso_3166::SOUTH_SUDAN, "SS", "SSD", "728");
    ctry(iso_3166::SYRIAN_ARAB_REPUBLIC, "SY", "SYR", "760");
    ctry(iso_3166::TONGA, "TO", "TON", "776");
    ctry(iso_3166::UKRAINE, "UA", "UKR", "804");
    ctry(iso_3166::VENEZUELA, "VE", "VEN", "862");
    ctry(iso_3166::ZIMBABWE, "ZW", "ZWE", "716");
}
pub fn rq_i01_countries_1() {
    ctry(iso_3166::ÅLAND_ISLANDS, "AX", "ALA", "248");
    ctry(iso_3166::ANTIGUA_AND_BARBUDA, "AG", "ATG", "028");
    ctry(iso_3166::BAHRAIN, "BH", "BHR", "048");
    ctry(iso_3166::BHUTAN, "BT", "BTN", "064");
    ctry(iso_3166::BRUNEI_DARUSSALAM, "BN", "BRN", "096");
    ctry(iso_3166::CAYMAN_ISLANDS, "KY", "CYM", "136");
    ctry(iso_3166::COMOROS, "KM", "COM", "174");
    ctry(iso_3166::CURAÇAO, "CW", "CUW", "531");
    ctry(iso_3166::EGYPT, "EG", "EGY", "818");
    ctry(iso_3166::FAROE_ISLANDS, "FO", "FRO", "234");
    ctry(iso_3166::GAMBIA, "GM", "GMB", "270");
    ctry(iso_3166::GUADELOUPE, "GP", "GLP", "312");
    ctry(iso_3166::HEARD_ISLAND_AND_MCDONALD_ISLANDS, "HM", "HMD", "334");
    ctry(iso_3166::IRAN, "IR", "IRN", "364");
    ctry(iso_3166::JERSEY, "JE", "JEY", "832");
    ctry(iso_3166::KYRGYZSTAN, "KG", "KGZ", "417");
    ctry(iso_3166::LITHUANIA, "LT", "LTU", "440");
    ctry(iso_3166::MALTA, "MT", "MLT", "470");
    ctry(iso_3166::MOLDOVA, "MD", "MDA", "498");
    ctry(iso_3166::NAMIBIA, "NA", "NAM", "516");
    ctry(iso_3166::NIGERIA, "NG", "NGA", "566");
    ctry(iso_3166::PALAU, "PW", "PLW", "585");
    ctry(iso_3166::POLAND, "PL", "POL", "616");
    ctry(iso_3166::SAINT_BARTHELEMY, "BL", "BLM", "652");
    ctry(iso_3166::SAN_MARINO, "SM", "SMR", "674");
    ctry(iso_3166::SINT_MAARTEN, "SX", "SXM", "534");
    ctry(iso_3166::SPAIN, "ES", "ESP", "724");
    ctry(iso_3166::TAIWAN, "TW", "TWN", "158");
    ctry(iso_3166::TRINIDAD_AND_TOBAGO, "TT", "TTO", "780");
    ctry(iso_3166::UNITED_ARAB_EMIRATES, "AE", "ARE", "784");
    ctry(iso_3166::VIETNAM, "VN", "VNM", "704");
}
pub fn rq_i01_countries_2() {
    ctry(iso_3166::ALBANIA, "AL", "ALB", "008");
    ctry(iso_3166::ARGENTINA, "AR", "ARG", "032");
    ctry(iso_3166::BANGLADESH, "BD", "BGD", "050");
    ctry(iso_3166::BOLIVIA, "BO", "BOL", "068");
    ctry(iso_3166::BULGARIA, "BG", "BGR", "100");
    ctry(iso_3166::CENTRAL_AFRICAN_REPUBLIC, "CF", "CAF", "140");
    ctry(iso_3166::CONGO, "CG", "COG", "178");
    ctry(iso_3166::CYPRUS, "CY", "CYP", "196");
    ctry(iso_3166::EL_SALVADOR, "SV", "SLV", "222");
    ctry(iso_3166::FIJI, "FJ", "FJI", "242");
    ctry(iso_3166::GEORGIA, "GE", "GEO", "268");
    ctry(iso_3166::GUAM, "GU", "GUM", "316");
    ctry(iso_3166::HOLY_SEE, "VA", "VAT", "336");
    ctry(iso_3166::IRAQ, "IQ", "IRQ", "368");
    ctry(iso_3166::JORDAN, "JO", "JOR", "400");
    ctry(iso_3166::LAO_PEOPLE_DEMOCRATIC_REPUBLIC, "LA", "LAO", "418");
    ctry(iso_3166::LUXEMBOURG, "LU", "LUX", "442");
    ctry(iso_3166::MARSHALL_ISLANDS, "MH", "MHL", "584");
    ctry(iso_3166::MONACO, "MC", "MCO", "492");
    ctry(iso_3166::NAURU, "NR", "NRU", "520");
    ctry(iso_3166::NIUE, "NU", "NIU", "570");
    ctry(iso_3166::PALESTINE, "PS", "PSE", "275");
    ctry(iso_3166::PORTUGAL, "PT", "PRT", "620");
    ctry(iso_3166::SAINT_HELENA_ASCENSION_AND_TRISTAN_DA_CUNHA, "SH", "SHN", "654");
    ctry(iso_3166::SAO_TOME_AND_PRINCIPE, "ST", "STP", "678");
    ctry(iso_3166::SLOVAKIA, "SK", "SVK", "703");
    ctry(iso_3166::SRI_LANKA, "LK", "LKA", "144");
    ctry(iso_3166::TAJIKISTAN, "TJ", "TJK", "762");
    ctry(iso_3166::TUNISIA, "TN", "TUN", "788");
    ctry(iso_3166::UNITED_KINGDOM_OF_GREAT_BRITAIN_AND_NORTHERN_IRELAND, "GB", "GBR", "826");
    ctry(iso_3166::VIRGIN_ISLANDS_BRITISH, "VG", "VGB", "092");
}
pub fn rq_i01_countries_3() {
    ctry(iso_3166::ALGERIA, "DZ", "DZA", "012");
    ctry(iso_3166::ARMENIA, "AM", "ARM", "051");
    ctry(iso_3166::BARBADOS, "BB", "BRB", "052");
    ctry(iso_3166::BONAIRE_SINT_EUSTATIUS_AND_SABA, "BQ", "BES", "535");
    ctry(iso_3166::BURKINA_FASO, "BF", "BFA", "854");
    ctry(iso_3166::CHAD, "TD", "TCD", "148");
    ctry(iso_3166::CONGO_DEMOCRATIC_REPUBLIC, "CD", "COD", "180");
    ctry(iso_3166::CZECH_REPUBLIC, "CZ", "CZE", "203");
    ctry(iso_3166::EQUATORIAL_GUINEA, "GQ", "GNQ", "226");
    ctry(iso_3166::FINLAND, "FI", "FIN", "246");
    ctry(iso_3166::GERMANY, "DE", "DEU", "276");
    ctry(iso_3166::GUATEMALA, "GT", "GTM", "320");
    ctry(iso_3166::HONDURAS, "HN", "HND", "340");
    ctry(iso_3166::IRELAND, "IE", "IRL", "372");
    ctry(iso_3166::KAZAKHSTAN, "KZ", "KAZ", "398");
    ctry(iso_3166::LATVIA, "LV", "LVA", "428");
    ctry(iso_3166::MACAO, "MO", "MAC", "446");
    ctry(iso_3166::MARTINIQUE, "MQ", "MTQ", "474");
    ctry(iso_3166::MONGOLIA, "MN", "MNG", "496");
    ctry(iso_3166::NEPAL, "NP", "NPL", "524");
    ctry(iso_3166::NORFOLK_ISLAND, "NF", "NFK", "574");
    ctry(iso_3166::PANAMA, "PA", "PAN", "591");
    ctry(iso_3166::PUERTO_RICO, "PR", "PRI", "630");
    ctry(iso_3166::SAINT_KITTS_AND_NEVIS, "KN", "KNA", "659");
    ctry(iso_3166::SAUDI_ARABIA, "SA", "SAU", "682");
    ctry(iso_3166::SLOVENIA, "SI", "SVN", "705");
    ctry(iso_3166::SUDAN, "SD", "SDN", "729");
    ctry(iso_3166::TANZANIA, "TZ", "TZA", "834");
    ctry(iso_3166::TURKEY, "TR", "TUR", "792");
    ctry(iso_3166::UNITED_STATES_OF_AMERICA, "US", "USA", "840");
    ctry(iso_3166::VIRGIN_ISLANDS_US, "VI", "VIR", "850");
}
pub fn rq_i01_countries_4() {
    ctry(iso_3166::AMERICAN_SAMOA, "AS", "ASM", "016");
    ctry(iso_3166::ARUBA, "AW", "ABW", "533");
    ctry(iso_3166::BELARUS, "BY", "BLR", "112");
    ctry(iso_3166::BOSNIA_AND_HERZEGOVINA, "BA", "BIH", "070");
    ctry(iso_3166::BURUNDI, "BI", "BDI", "108");
    ctry(iso_3166::CHILE, "CL", "CHL", "152");
    ctry(iso_3166::COOK_ISLANDS, "CK", "COK", "184");
    ctry(iso_3166::DENMARK, "DK", "DNK", "208");
    ctry(iso_3166::ERITREA, "ER", "ERI", "232");
    ctry(iso_3166::FRANCE, "FR", "FRA", "250");
    ctry(iso_3166::GHANA, "GH", "GHA", "288");
    ctry(iso_3166::GUERNSEY, "GG", "GGY", "831");
    ctry(iso_3166::HONG_KONG, "HK", "HKG", "344");
    ctry(iso_3166::ISLE_OF_MAN, "IM", "IMN", "833");
    ctry(iso_3166::KENYA, "KE", "KEN", "404");
    ctry(iso_3166::LEBANON, "LB", "LBN", "422");
    ctry(iso_3166::MADAGASCAR, "MG", "MDG", "450");
    ctry(iso_3166::MAURITANIA, "MR", "MRT", "478");
    ctry(iso_3166::MONTENEGRO, "ME", "MNE", "499");
    ctry(iso_3166::NETHERLANDS, "NL", "NLD", "528");
    ctry(iso_3166::NORTH_MACEDONIA, "MK", "MKD", "807");
    ctry(iso_3166::PAPUA_NEW_GUINEA, "PG", "PNG", "598");
    ctry(iso_3166::QATAR, "QA", "QAT", "634");
    ctry(iso_3166::SAINT_LUCIA, "LC", "LCA", "662");
    ctry(iso_3166::SENEGAL, "SN", "SEN", "686");
    ctry(iso_3166::SOLOMON_ISLANDS, "SB", "SLB", "090");
    ctry(iso_3166::SURINAME, "SR", "SUR", "740");
    ctry(iso_3166::THAILAND, "TH", "THA", "764");
    ctry(iso_3166::TURKMENISTAN, "TM", "TKM", "795");
    ctry(iso_3166::UNITED_STATES_MINOR_OUTLYING_ISLANDS, "UM", "UMI", "581");
    ctry(iso_3166::WALLIS_AND_FUTUNA, "WF", "WLF", "876");
}
pub fn rq_i01_countries_5() {
    ctry(iso_3166::ANDORRA, "AD", "AND", "020");
    ctry(iso_3166::AUSTRALIA, "AU", "AUS", "036");
    ctry(iso_3166::BELGIUM, "BE", "BEL", "056");
    ctry(iso_3166::BOTSWANA, "BW", "BWA", "072");
    ctry(iso_3166::CABO_VERDE, "CV", "CPV", "132");
    ctry(iso_3166::CHINA, "CN", "CHN", "156");
    ctry(iso_3166::COSTA_RICA, "CR", "CRI", "188");
    ctry(iso_3166::DJIBOUTI, "DJ", "DJI", "262");
    ctry(iso_3166::ESTONIA, "EE", "EST", "233");
    ctry(iso_3166::FRENCH_GUINEA, "GF", "GUF", "254");
    ctry(iso_3166::GIBRALTAR, "GI", "GIB", "292");
    ctry(iso_3166::GUINEA, "GN", "GIN", "324");
    ctry(iso_3166::HUNGARY, "HU", "HUN", "348");
    ctry(iso_3166::ISRAEL, "IL", "ISR", "376");
    ctry(iso_3166::KIRIBATI, "KI", "KIR", "296");
    ctry(iso_3166::LESOTHO, "LS", "LSO", "426");
    ctry(iso_3166::MALAWI, "MW", "MWI", "454");
    ctry(iso_3166::MAURITIUS, "MU", "MUS", "480");
    ctry(iso_3166::MONTSERRAT, "MS", "MSR", "500");
    ctry(iso_3166::NEW_CALEDONIA, "NC", "NCL", "540");
    ctry(iso_3166::NORTHERN_MARIANA_ISLANDS, "MP", "MNP", "580");
    ctry(iso_3166::PARAGUAY, "PY", "PRY", "600");
    ctry(iso_3166::RÉUNION, "RE", "REU", "638");
    ctry(iso_3166::SAINT_MARTIN, "MF", "MAF", "663");
    ctry(iso_3166::SERBIA, "RS", "SRB", "688");
    ctry(iso_3166::SOMALIA, "SO", "SOM", "706");
    ctry(iso_3166::SVALBARD_AND_JAN_MAYEN, "SJ", "SJM", "744");
    ctry(iso_3166::TIMOR_LESTE, "TL", "TLS", "626");
    ctry(iso_3166::TURKS_AND_CAICOS_ISLANDS, "TC", "TCA", "796");
    ctry(iso_3166::URUGUAY, "UY", "URY", "858");
    ctry(iso_3166::WESTERN_SAHARA, "EH", "ESH", "732");
}
pub fn rq_i01_countries_6() {
    ctry(iso_3166::ANGOLA, "AO", "AGO", "024");
    ctry(iso_3166::AUSTRIA, "AT", "AUT", "040");
    ctry(iso_3166::BELIZE, "BZ", "BLZ", "084");
    ctry(iso_3166::BOUVET_ISLAND, "BV", "BVT", "074");
    ctry(iso_3166::CAMBODIA, "KH", "KHM", "116");
    ctry(iso_3166::CHRISTMANS_ISLAND, "CX", "CXR", "162");
    ctry(iso_3166::CÔTE_DIVOIRE, "CI", "CIV", "384");
    ctry(iso_3166::DOMINICA, "DM", "DMA", "212");
    ctry(iso_3166::ESWATINI, "SZ", "SWZ", "748");
    ctry(iso_3166::FRENCH_POLYNESIA, "PF", "PYF", "258");
    ctry(iso_3166::GREECE, "GR", "GRC", "300");
    ctry(iso_3166::GUINEA_BISSAU, "GW", "GNB", "624");
    ctry(iso_3166::ICELAND, "IS", "ISL", "352");
    ctry(iso_3166::ITALY, "IT", "ITA", "380");
    ctry(iso_3166::KOREA_DEMOCRATIC_PEOPLE_REPUBLIC, "KP", "PRK", "408");
    ctry(iso_3166::LIBERIA, "LR", "LBR", "430");
    ctry(iso_3166::MALAYSIA, "MY", "MYS", "458");
    ctry(iso_3166::MAYOTTE, "YT", "MYT", "175");
    ctry(iso_3166::MOROCCO, "MA", "MAR", "504");
    ctry(iso_3166::NEW_ZEALAND, "NZ", "NZL", "554");
    ctry(iso_3166::NORWAY, "NO", "NOR", "578");
    ctry(iso_3166::PERU, "PE", "PER", "604");
    ctry(iso_3166::ROMANIA, "RO", "ROU", "642");
    ctry(iso_3166::SAINT_PIERRE_AND_MIQUELON, "PM", "SPM", "666");
    ctry(iso_3166::SEYCHELLES, "SC", "SYC", "690");
    ctry(iso_3166::SOUTH_AFRICA, "ZA", "ZAF", "710");
    ctry(iso_3166::SWEDEN, "SE", "SWE", "752");
    ctry(iso_3166::TOGO, "TG", "TGO", "768");
    ctry(iso_3166::TUVALU, "TV", "TUV", "798");
    ctry(iso_3166::UZBEKISTAN, "UZ", "UZB", "860");
    ctry(iso_3166::YEMEN, "YE", "YEM", "887");
}
pub fn rq_i01_countries_7() {
    ctry(iso_3166::ANGUILLA, "AI", "AIA", "660");
    ctry(iso_3166::AZERBAIJAN, "AZ", "AZE", "031");
    ctry(iso_3166::BENIN, "BJ", "BEN", "204");
    ctry(iso_3166::BRAZIL, "BR", "BRA", "076");
    ctry(iso_3166::CAMEROON, "CM", "CMR", "120");
    ctry(iso_3166::COCOS_ISLANDS, "CC", "CCK", "166");
    ctry(iso_3166::CROATIA, "HR", "HRV", "191");
    ctry(iso_3166::DOMINICAN_REPUBLIC, "DO", "DOM", "214");
    ctry(iso_3166::ETHIOPIA, "ET", "ETH", "231");
    ctry(iso_3166::FRENCH_SOUTHERN_TERRITORIES, "TF", "ATF", "260");
    ctry(iso_3166::GREENLAND, "GL", "GRL", "304");
    ctry(iso_3166::GUYANA, "GY", "GUY", "328");
    ctry(iso_3166::INDIA, "IN", "IND", "356");
    ctry(iso_3166::JAMAICA, "JM", "JAM", "388");
    ctry(iso_3166::KOREA_REPUBLIC, "KR", "KOR", "410");
    ctry(iso_3166::LIBYA, "LY", "LBY", "434");
    ctry(iso_3166::MALDIVES, "MV", "MDV", "462");
    ctry(iso_3166::MEXICO, "MX", "MEX", "484");
    ctry(iso_3166::MOZAMBIQUE, "MZ", "MOZ", "508");
    ctry(iso_3166::NICARAGUA, "NI", "NIC", "558");
    ctry(iso_3166::OMAN, "OM", "OMN", "512");
    ctry(iso_3166::PHILIPPINES, "PH", "PHL", "608");
    ctry(iso_3166::RUSSIAN_FEDERATION, "RU", "RUS", "643");
    ctry(iso_3166::SAINT_VINCENT_AND_THE_GRENADINES, "VC", "VCT", "670");
    ctry(iso_3166::SIERRA_LEONE, "SL", "SLE", "694");
    ctry(iso_3166::SOUTH_GEORGIA_AND_THE_SOUTH_SANDWICH_ISLANDS, "GS", "SGS", "239");
    ctry(iso_3166::SWITZERLAND, "CH", "CHE", "756");
    ctry(iso_3166::TOKELAU, "TK", "TKL", "772");
    ctry(iso_3166::UGANDA, "UG", "UGA", "800");
    ctry(iso_3166::VANUATU, "VU", "VUT", "548");
    ctry(iso_3166::ZAMBIA, "ZM", "ZMB", "894");
}
pub fn rq_i01_unassigned_0() {
    const U: &[&str] = &["AA", "AV", "CE", "DC", "DP", "DX", "EK", "EV", "FD", "FQ", "FZ", "HA", "HI", "HW", "IG", "IW", "JF", "JQ", "JY", "KK", "KX", "LM", "MB", "NM", "NY", "OH", "OQ", "OY", "PP", "QD", "QL", "QT", "RB", "RK", "RV", "SW", "TU", "UH", "UQ", "VD", "VP", "VY", "WH", "WP", "WY", "XG", "XO", "XW", "YF", "YN", "YW", "ZF", "ZO", "ZX"];
    let mut i = 0;
    while i < U.len() {
        ensure("unassigned code", ISO_3166::from_alpha_2(U[i]).is_none());
        i += 1;
    }
}
pub fn rq_i01_unassigned_1() {
    const U: &[&str] = &["AB", "AY", "CJ", "DD", "DQ", "DY", "EL", "EW", "FE", "FS", "GC", "HB", "HJ", "HX", "IH", "IX", "JG", "JR", "JZ", "KL", "LD", "LN", "MI", "NN", "OA", "OI", "OR", "OZ", "PQ", "QE", "QM", "QU", "RC", "RL", "RX", "TA", "TX", "UI", "UR", "VF", "VQ", "VZ", "WI", "WQ", "WZ", "XH", "XP", "XX", "YG", "YO", "YX", "ZG", "ZP", "ZY"];
    let mut i = 0;
    while i < U.len() {
        ensure("unassigned code", ISO_3166::from_alpha_2(U[i]).is_none());
        i += 1;
    }
}
pub fn rq_i01_unassigned_2() {
    const U: &[&str] = &["AC", "BC", "CP", "DF", "DR", "EA", "EM", "EX", "FF", "FT", "GJ", "HC", "HL", "HY", "II", "IY", "JH", "JS", "KA", "KO", "LE", "LO", "MJ", "NQ", "OB", "OJ", "OS", "PB", "PU", "QF", "QN", "QV", "RD", "RM", "RY", "TB", "TY", "UJ", "UT", "VH", "VR", "WA", "WJ", "WR", "XA", "XI", "XQ", "XY", "YH", "YP", "YY", "ZH", "ZQ", "ZZ"];
    let mut i = 0;
    while i < U.len() {
        ensure("unassigned code", ISO_3166::from_alpha_2(U[i]).is_none());
        i += 1;
    }
}
pub fn rq_i01_unassigned_3() {
    const U: &[&str] = &["AH", "BK", "CQ", "DG", "DS", "EB", "EN", "EY", "FG", "FU", "GK", "HD", "HO", "HZ", "IJ", "IZ", "JI", "JT", "KB", "KQ", "LF", "LP", "NB", "NS", "OC", "OK", "OT", "PC", "PV", "QG", "QO", "QW", "RF", "RN", "RZ", "TE", "UB", "UK", "UU", "VJ", "VS", "WB", "WK", "WT", "XB", "XJ", "XR", "XZ", "YI", "YQ", "YZ", "ZI", "ZR"];
    let mut i = 0;
    while i < U.len() {
        ensure("unassigned code", ISO_3166::from_alpha_2(U[i]).is_none());
        i += 1;
    }
}
pub fn rq_i01_unassigned_4() {
    const U: &[&str] = &["AJ", "BP", "CS", "DH", "DT", "ED", "EO", "EZ", "FH", "FV", "GO", "HE", "HP", "IA", "IK", "JA", "JJ", "JU", "KC", "KS", "LG", "LQ", "ND", "NT", "OD", "OL", "OU", "PD", "PX", "QH", "QP", "QX", "RG", "RP", "SF", "TI", "UC", "UL", "UV", "VK", "VT", "WC", "WL", "WU", "XC", "XK", "XS", "YA", "YJ", "YR", "ZB", "ZJ", "ZS"];
    let mut i = 0;
    while i < U.len() {
        ensure("unassigned code", ISO_3166::from_alpha_2(U[i]).is_none());
        i += 1;
    }
}
pub fn rq_i01_unassigned_5() {
    const U: &[&str] = &["AK", "BU", "CT", "DI", "DU", "EF", "EP", "FA", "FL", "FW", "GV", "HF", "HQ", "IB", "IP", "JB", "JK", "JV", "KD", "KT", "LH", "LW", "NH", "NV", "OE", "ON", "OV", "PI", "PZ", "QI", "QQ", "QY", "RH", "RQ", "SP", "TP", "UD", "UN", "UW", "VL", "VV", "WD", "WM", "WV", "XD", "XL", "XT", "YB", "YK", "YS", "ZC", "ZK", "ZT"];
    let mut i = 0;
    while i < U.len() {
        ensure("unassigned code", ISO_3166::from_alpha_2(U[i]).is_none());
        i += 1;
    }
}
pub fn rq_i01_unassigned_6() {
    const U: &[&str] = &["AN", "BX", "DA", "DL", "DV", "EI", "EQ", "FB", "FN", "FX", "GX", "HG", "HS", "IC", "IU", "JC", "JL", "JW", "KF", "KU", "LJ", "LX", "NJ", "NW", "OF", "OO", "OW", "PJ", "QB", "QJ", "QR", "QZ", "RI", "RR", "SQ", "TQ", "UE", "UO", "UX", "VM", "VW", "WE", "WN", "WW", "XE", "XM", "XU", "YC", "YL", "YU", "ZD", "ZL", "ZU"];
    let mut i = 0;
    while i < U.len() {
        ensure("unassigned code", ISO_3166::from_alpha_2(U[i]).is_none());
        i += 1;
    }
}
pub fn rq_i01_unassigned_7() {
    const U: &[&str] = &["AP", "CB", "DB", "DN", "DW", "EJ", "EU", "FC", "FP", "FY", "GZ", "HH", "HV", "IF", "IV", "JD", "JN", "JX", "KJ", "KV", "LL", "LZ", "NK", "NX", "OG", "OP", "OX", "PO", "QC", "QK", "QS", "RA", "RJ", "RT", "SU", "TS", "UF", "UP", "VB", "VO", "VX", "WG", "WO", "WX", "XF", "XN", "XV", "YD", "YM", "YV", "ZE", "ZN", "ZV"];
    let mut i = 0;
    while i < U.len() {
        ensure("unassigned code", ISO_3166::from_alpha_2(U[i]).is_none());
        i += 1;
    }
}
pub fn rq_i01_malformed() {
    const U: &[&str] = &["", "A", "us", "Us", "USA", "840", " US", "US ", "G B"];
    let mut i = 0;
    while i < U.len() {
        ensure("malformed code", ISO_3166::from_alpha_2(U[i]).is_none());
        i += 1;
    }
}
