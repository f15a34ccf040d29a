"""The properties, and which contract crates decide them (mk.py writes properties.jsonl and MANIFEST.json from this)."""
T = "crates/RustQuant_time/src/"
P = {}


def prop(id, title, statement, quant, why, files, mech, crates=(), level="proof", note="", over=("inputs",), na=None, assumptions=(), slow=(), state=()):
    P[id] = dict(title=title, statement=statement, quant=quant, why=why, files=list(files), mech=mech, crates=list(crates), level=level, note=note, over=list(over), na=na, assumptions=list(assumptions), slow=list(slow), state=list(state))


prop("D01", "Actual/fixed-basis day counts are exact, additive and antisymmetric",
     "For every pair of dates, a day count with a fixed denominator is the number of calendar days between them divided by that denominator (and 1/1 is always one). It is zero for equal dates, changes sign when the dates are swapped and adds up over consecutive periods. The entry points that compute counts and factors for a pair or a list of dates agree with it.",
     "all pairs and triples of dates in the years -9990..9990, all fixed-basis conventions; lists of up to 5 dates",
     "Tests evaluate a handful of date pairs; leap years, century years, month ends and reversed pairs make the space of about 5e13 pairs impossible to sample meaningfully.",
     [T + "day_counting.rs", T + "calendar.rs", T + "utilities.rs"],
     [("fixed-basis formulas", T + "day_counting.rs"), ("windowed entry points", T + "calendar.rs")], ["time"],
     note="Every obligation is discharged for all dates of the range; the list entry points are bounded to 5 dates.")
prop("D02", "The 30/360 family follows its published day-adjustment rules",
     "For every pair of dates each 30/360 convention yields (360*years + 30*months + adjusted days) over its basis, with the start and end day adjusted exactly as that convention prescribes, including the end-of-February rules.",
     "all pairs of dates in the years -9990..9990, each convention of the family",
     "The conventions differ only on month ends and on the end of February; the tests pin a few pairs per convention and none of the mixed cases.",
     [T + "day_counting.rs", T + "utilities.rs"], [("day adjustment rules", T + "day_counting.rs")], ["time"],
     note="Every obligation is discharged for all dates of the range.")
prop("D03", "Year-splitting day counts attribute every day to the right year",
     "Actual/Actual (ISDA, AFB), the leap-day-aware Actual/365 variants and the no-leap conventions yield the sum their definition prescribes: leap-year days over 366 and other days over 365, whole years counted back from the end plus a stub, or actual days less the leap days inside the period. They are antisymmetric and give whole numbers for whole years.",
     "all pairs of dates in the years -9990..9990; periods touching at most 5 calendar years for the conventions that iterate over years",
     "Whether a leap day falls inside a period depends on both ends and on century rules; a few sampled pairs cannot settle it.",
     [T + "day_counting.rs", T + "utilities.rs"], [("year splitting", T + "day_counting.rs"), ("leap day counting", T + "utilities.rs")], ["time"],
     note="ISDA and AFB are discharged for all dates; conventions that loop over years are bounded to 5 calendar years.", slow=["rqb_d03_no_leap"])
prop("D04", "Business-day adjustment lands on the conventional business day",
     "Adjusting a date leaves business days unchanged, and otherwise gives the nearest business day in the convention's direction, every day in between being a non-business day; modified conventions turn around exactly when the month would change. Adjusting a list adjusts each of its dates.",
     "all dates, all calendars (the holiday predicate is unconstrained), every convention; runs of at most 5 non-business days",
     "Holidays can fall on any pattern of days around month ends; tests use one or two real calendars.",
     [T + "date_rolling.rs", T + "calendar.rs"], [("rolling conventions", T + "date_rolling.rs")], ["time"],
     note="The calendar is any predicate; the search loops are unrolled to 5 consecutive non-business days (bounded).", slow=["rqb_d04_roll_dates_modified"])
prop("D05", "A business day is a day that is neither weekend nor holiday",
     "In every calendar a date is a business day exactly when it is not a weekend day of its market, not one of the market's holidays and not one of the added holidays. Counts of business days over a period count exactly these days.",
     "all dates, all markets, added holiday lists; counting periods of bounded length",
     "Tests probe individual dates of individual markets.",
     [T + "calendar.rs"], [("is_business_day and added holidays", T + "calendar.rs")], ["time"],
     note="The predicate is discharged for all dates and markets; counts are bounded in the length of the period.")
prop("D06", "National calendars follow their holiday rules",
     "On every day of 1901-2199 the calendar of each market whose holidays follow fixed days, weekdays and Easter marks a holiday exactly when one of that market's rules applies, with the rule's moves off the weekend and its years of validity. In the tabulated years the markets with lunar, Hebrew or Islamic holidays mark their fixed days and every festival: Hong Kong on exactly the gazetted weekdays, Israel on exactly the days of the Hebrew calendar, China, Singapore, India and Indonesia on its day or within the days on which the lunar or Islamic calendar lets it fall, and no other weekday.",
     "all dates 1901-2199 for 22 rule-based markets and all weekdays of the tabulated years (2000-2029 at most) of the others, Israel 2001-2041",
     "Thousands of year, weekday and Easter combinations per market; tests read a handful of dates in a few markets.",
     [T + "countries", T + "calendar.rs"], [("holiday rules", T + "countries"), ("market dispatch", T + "calendar.rs")], ["time"],
     note="The date of Easter Monday is abstract here (its contract is D07). The lunar days come from an independent table of the Chinese months, the Hebrew ones from the rules of that calendar, the Islamic ones from the tabular calendar with a tolerance of 2-3 days (sightings differ); bridge days of China are only bounded in distance.")
prop("D07", "Easter-based days follow the ecclesiastical computus",
     "For every supported year the Western and Orthodox Easter Mondays the holiday rules rest on are those of the Gregorian and Julian computus. Years outside the supported range are refused rather than misread.",
     "all 299 supported years for both rites, all years outside the table",
     "The table has about 600 entries of which the tests read a few.",
     [T + "constants.rs", T + "utilities.rs"], [("Easter table", T + "constants.rs")], ["time"],
     note="Each of the 299 years is an obligation of its own; finite and complete.")
prop("D08", "Month and weekday utilities return the day they name",
     "For every year and month the first and last day of a given weekday lies in that month, on that weekday, with no earlier or later one; the first/last-day, weekend and end-of-February predicates hold exactly on the days they name.",
     "all months of the years -9990..9990 and all dates",
     "Twelve months times seven weekdays times every leap pattern; tests sample a few months.",
     [T + "utilities.rs"], [("calendar arithmetic", T + "utilities.rs")], ["time"],
     note="Every obligation is discharged for all dates of the range.")
prop("D09", "Schedules contain exactly the dates of their period, in order",
     "A date sequence contains every day from start to end once, in order, and is empty when the end precedes the start. Each frequency name stands for its number of periods per year. A schedule holds the given dates adjusted to business days, and one day-count factor per date, the first counted from today.",
     "all start/end dates with a bounded number of schedule dates; every frequency",
     "Tests build one or two schedules.",
     [T + "schedule.rs", T + "calendar.rs", T + "frequency.rs", T + "constants.rs", T + "utilities.rs"], [("schedule construction", T + "calendar.rs"), ("frequency tables", T + "frequency.rs")], ["time"],
     note="Frequencies are discharged completely; sequences and schedules are bounded in their length.")
TR = "crates/RustQuant_trading/src/"
prop("T01", "A market order fills against the best prices first, and conserves quantity",
     "A market order trades only with the opposite side of the book, from the best price outwards and in time order within a price. What it fills equals what the resting orders lose, never exceeds what was asked or offered, and everything it does not touch stays as it was.",
     "all books of up to three resting orders per side with arbitrary prices and sizes, all market orders and sequences of two of them",
     "Which orders are hit depends on the relation between every price and size in the book; tests use one hand-made book.",
     [TR + "order_book.rs", TR + "order.rs", TR + "order_side.rs", TR + "order_type.rs", TR + "order_lifespan.rs"], [("matching loop", TR + "order_book.rs")], ["trading"],
     note="Bounded in the number of resting orders (three) and of market orders (two); prices, sizes and sides are unconstrained.", level="other", slow=["rqb_t01_market_buy_three", "rqb_t01_market_sell_three"])
prop("T02", "Cancelling and adding orders keeps the book consistent",
     "Adding an order makes exactly that order appear on its side, cancelling one removes exactly that one, an identifier in the book is not accepted twice, and the best prices always are those of the orders that rest. Unknown identifiers are refused and change nothing.",
     "all books of up to three orders with arbitrary identifiers, prices and sizes; any order cancelled, added again or reused",
     "Consistency between the index and the two sides must hold after every history of additions and cancellations.",
     [TR + "order_book.rs", TR + "order.rs", TR + "order_side.rs", TR + "order_type.rs", TR + "order_lifespan.rs"], [("add and cancel", TR + "order_book.rs")], ["trading"],
     note="Bounded in the number of resting orders; identifiers, prices and sizes are unconstrained.", slow=["rqb_t02_cancel", "rqb_t02_duplicate"])
CF = "crates/RustQuant_cashflows/src/"
prop("C01", "Cash flows and legs are valued linearly in amount and discount factor",
     "A cash flow's present value is its amount times the discount factor; addition, subtraction and scaling of cash flows act on the amount and keep the date. A leg's value is the sum over its flows, each discounted at its own date, and its period runs from its first to its last date. A quote holds exactly the last value set and reports being valid accordingly.",
     "all amounts, dates, discount functions; legs of up to three flows; every quote update",
     "Tests evaluate one leg with one discount function.",
     [CF + "cashflow.rs", CF + "legs.rs", CF + "quotes.rs"], [("cashflow algebra", CF + "cashflow.rs"), ("leg npv", CF + "legs.rs"), ("quote updates", CF + "quotes.rs")], ["cashflows"],
     note="Single cash flows and quotes are discharged for all values; legs are bounded to three flows.")
IN = "crates/RustQuant_instruments/src/"
prop("M01", "Money arithmetic never mixes currencies and exchange is consistent",
     "Arithmetic on money of one currency acts on the amounts and keeps the currency; operations that mix currencies are refused. Converting with an exchange rate multiplies or divides by the rate according to the direction, and only converts between the two currencies of the rate.",
     "all amounts, rates and pairs of currencies; exchanges of up to three rates",
     "The guards are per operation and per currency pair; tests cover a few pairs.",
     [IN + "fx/money.rs", IN + "fx/exchange.rs", IN + "fx/currency.rs"], [("money operators", IN + "fx/money.rs"), ("rate lookup and conversion", IN + "fx/exchange.rs")], ["instruments"],
     note="Discharged for all amounts and a range of currencies; exchange tables are bounded to three rates.")
prop("I01", "ISO country and currency codes map as the standards publish them",
     "Every supported ISO 4217 currency and ISO 3166 country is found by its alphabetic, and numeric code, and carries the codes the standard assigns to it. Strings that are not codes are refused.",
     "every currency and country of the tables; every unassigned pair of letters; malformed strings",
     "The tables hold hundreds of entries, the tests read a few of them.",
     ["crates/RustQuant_iso/src/iso_4217.rs", "crates/RustQuant_iso/src/iso_3166.rs", IN + "fx/currency.rs"], [("code tables", "crates/RustQuant_iso/src/iso_4217.rs"), ("code lookup", "crates/RustQuant_iso/src/iso_3166.rs")], ["instruments"],
     note="Finite and complete: each entry is an obligation of its own, against an independently produced table.")
OP = IN + "options/"
prop("O01", "Option payoffs are what their contracts define",
     "Vanilla, binary, power, log, supershare, Asian, barrier and lookback options pay, on every terminal price or price path, exactly what their contract defines: calls and puts against fixed or floating strikes, averages over the whole path, knock-in and knock-out at the touch of the barrier with its rebate. A Monte-Carlo price is the discounted mean of these payoffs over the simulated paths.",
     "all prices, strikes and barriers; price paths of up to four dates; sets of up to three simulated paths",
     "Whether a path touches a barrier, and which average or extreme it has, depends on every price of the path; tests use one or two paths.",
     [OP + "vanilla.rs", OP + "binary.rs", OP + "power.rs", OP + "log.rs", OP + "supershare.rs", OP + "asian.rs", OP + "barrier.rs", OP + "lookback.rs", IN + "monte_carlo_pricer.rs"],
     [("payoff definitions", OP + "vanilla.rs"), ("path-dependent payoffs", OP + "barrier.rs"), ("discounted mean", IN + "monte_carlo_pricer.rs")], ["instruments"],
     note="Payoffs of a terminal price are discharged for all values; path-dependent payoffs are bounded to four dates.")
prop("O02", "Closed-form option prices obey their formula, parity and sensitivities",
     "For every model of the Black-Scholes-Merton family, Bachelier, Heston and SABR the price is the model's closed form, call and put prices obey put-call parity, and every sensitivity is the derivative of the price (or of the lower-order sensitivity) that its name states. Pricing a dated contract evaluates the model at the contract's strike, type and time to expiry.",
     "all spots, strikes, rates, yields, volatilities and expiries of wide ranges; calls and puts",
     "A sensitivity with a wrong term agrees with the right one at isolated inputs; only the identity for all inputs shows it is the derivative. Tests compare a few prices at one input.",
     [OP + "option_models.rs", OP + "black_scholes_merton.rs", OP + "vanilla.rs", "crates/RustQuant_math/src/distributions/gaussian.rs"],
     [("closed forms and Greeks", OP + "option_models.rs"), ("dated Black-Scholes-Merton option", OP + "black_scholes_merton.rs"), ("contract and model", OP + "vanilla.rs")], ["instruments"],
     note="Discharged as identities over the reals (the normal distribution through the derivative of the error function). Heston's two integrals are uninterpreted, so its gamma is not covered; that Bachelier's approximation inverts the price is executed only.")
AD = "crates/RustQuant_autodiff/src/"
prop("A01", "Every differentiable operation records its own derivative",
     "For each arithmetic operator, elementary function, power, logarithm and error function on recorded variables, with variables or plain numbers as operands, the value is the function's value and the accumulated gradient is its exact partial derivative, alone and inside a larger expression.",
     "all operand values in the interior of each function's domain",
     "A wrong partial agrees with the right one at isolated points (the tests differentiate at x = 1, where 1/x, 1/x^2 and 1/(x ln b) mistakes hide).",
     [AD + "overload.rs", AD + "variable.rs", AD + "graph.rs", AD + "accumulate.rs"], [("operator and function overloads", AD + "overload.rs")], ["autodiff"],
     note="Discharged as identities over the reals. The derivatives of log10, log2 and of min/max with a constant first operand are known findings: the existing tests and examples require the wrong values.")
prop("A02", "Reverse accumulation applies the chain rule to any recorded tape",
     "The gradient of an output with respect to any selection of variables is the sum over all paths of the products of the recorded partials; operations that do not feed the output contribute nothing, even where their derivative is infinite. Recording, joining and clearing graphs keep indices consistent, and operations across graphs are refused.",
     "all partials and wirings of tapes of up to two inputs and two further vertices symbolically, twelve executed",
     "The chain rule has to hold for every wiring of the tape, not for the few expressions of the tests.",
     [AD + "accumulate.rs", AD + "graph.rs", AD + "gradient.rs", AD + "variable.rs", AD + "overload.rs"], [("backward sweep", AD + "accumulate.rs"), ("tape", AD + "graph.rs"), ("selection of derivatives", AD + "gradient.rs")], ["autodiff"],
     note="Tape operations are discharged; the wirings of a tape are bounded in its length.")
MA = "crates/RustQuant_math/src/"
prop("X01", "Interpolators pass through their data and stay within it",
     "A fitted linear or exponential interpolator returns the given value at every given point, and between two points the value of the straight line, respectively of the exponential, through them, wherever points are added. B-splines sum to one, lie between their control values, are clamped at both ends and are polygons in degree one. Points outside of the range are refused.",
     "all sets of two to four points in any order, all control values and knots of cubic and lower splines with up to five control points, all arguments",
     "Which interval an argument falls in, and the behaviour at its ends, depends on every point; tests evaluate a few arguments of one set.",
     [MA + "interpolation/linear_interpolator.rs", MA + "interpolation/exponential_interpolator.rs", MA + "interpolation/b_splines.rs"],
     [("chord", MA + "interpolation/linear_interpolator.rs"), ("exponential chord", MA + "interpolation/exponential_interpolator.rs"), ("Cox-de Boor recursion", MA + "interpolation/b_splines.rs")], ["math"],
     note="Bounded in the number of points; their coordinates and the argument are unconstrained reals.", level="other", slow=["rqb_x01_spline_unity", "rqb_x01_linear_knots"])
prop("X02", "Descriptive statistics are the estimators they are named after",
     "Means, variances, deviations, covariance, correlation, skewness, kurtosis, extremes and order statistics of a sample equal their defining formulas, do not depend on the order of the sample where the formula does not, and are refused for samples too small or of unequal length.",
     "all samples of up to four (order statistics: five) arbitrary elements",
     "A wrong normalisation or a dropped term agrees with the right one on special samples such as those of the tests.",
     [MA + "statistic.rs"], [("estimators", MA + "statistic.rs")], ["math"],
     note="Bounded in the size of the sample; its elements are unconstrained reals.", level="other", slow=["rqb_x02_shape"])
prop("X03", "Sequences, quadrature and Fourier transforms compute their definitions",
     "Sequence generators return exactly the arithmetic progression asked for, its ends included; cumulative sums are the partial sums. Quadrature is linear, exact on constants, reverses with its limits and skips values that are not finite. The fast Fourier transform is the discrete Fourier transform, and lengths that are not powers of two are refused.",
     "all end points and steps with up to five terms; all integration limits; all signals of one to eight samples",
     "Tests compare a handful of sequences, integrals and one signal.",
     [MA + "sequences.rs", MA + "integration.rs", MA + "fft.rs"],
     [("sequences", MA + "sequences.rs"), ("tanh-sinh quadrature", MA + "integration.rs"), ("radix-two recursion", MA + "fft.rs")], ["math"],
     note="Quadrature is discharged for all limits; sequences and signals are bounded in their length.", level="other")
prop("X04", "Root finders return a point within the accuracy of a root",
     "When bisection, Newton-Raphson or Brent return, the function has a root within the accuracy of the result, an exact root given as the guess is returned as it is, and no method evaluates the function outside of an enforced interval. An accuracy that is not positive is refused.",
     "families of increasing and decreasing functions with arbitrary slopes and root; all accuracies; four iterations and more executed",
     "Bracketing depends on the signs of every evaluated value; tests solve one function.",
     [MA + "rootfinding/%s.rs" % i for i in ("bisection", "brent", "newton_raphson", "rootfinder")], [("bracketing and steps", MA + "rootfinding/bisection.rs")], ["math"],
     note="Bounded in the number of iterations and to piecewise linear and quadratic functions.", level="other", slow=["rqb_x04_bisection", "rqb_x04_brent_up", "rqb_x04_brent_down"])
prop("X05", "Probability distributions are consistent with their densities and moments",
     "Every distribution's density is the derivative of its distribution function (or its masses sum to it), masses sum to one, quantiles and medians invert the distribution function, and mean, variance, skewness, excess kurtosis, moment generating and characteristic function are those of the density. Samples are independent draws of the distribution itself, as many as asked for; invalid parameters are refused.",
     "all parameters and arguments of wide ranges; discrete supports of up to five values; Gamma shapes and degrees of freedom that are multiples of one half; samples of up to three draws",
     "Each identity must hold for every parameter; the tests check isolated values, many at the one parameter where wrong formulas agree.",
     [MA + "distributions/%s.rs" % i for i in ("bernoulli", "binomial", "chi_squared", "distribution", "exponential", "gamma", "gaussian", "poisson", "uniform")],
     [("densities and distribution functions", MA + "distributions/gaussian.rs"), ("moments", MA + "distributions/binomial.rs"), ("sampling", MA + "distributions/gamma.rs")], ["math"],
     note="Continuous families are discharged for all parameters (incomplete gamma functions through their recurrence); discrete ones are bounded in their support. Poisson's distribution function is a known finding.", level="other")
prop("X06", "Gradient descent steps against the gradient and reports its end point",
     "Every iteration of the gradient descent moves each variable against its partial derivative by the learning rate; the descent stops, without moving, where the norm of the gradient is below the tolerance. It reports how many times it looked, the point it ended at and the value of the function at that very point; a tolerance that is not positive is refused.",
     "all quadratic functions of two variables, starting points and learning rates; one and two iterations; convergence on convex functions of two and three variables executed",
     "Tests look at the minimiser of functions whose minimum is zero, after convergence.",
     [MA + "optimization/gradient_descent.rs", "crates/RustQuant_autodiff/src/graph.rs"], [("steps and report", MA + "optimization/gradient_descent.rs")], ["math"],
     note="A step is discharged for all inputs; bounded to two steps, convergence is executed.", level="other")
PO = "crates/RustQuant_portfolios/src/"
ML = "crates/RustQuant_ml/src/"
prop("L01", "Activation functions have the shape and the derivative they are named after",
     "Logistic, rectifier, softplus, hyperbolic tangent, Gaussian and GELU activations take the values of their definitions on every number, single or as matrix entries, and on recorded variables they take the same value and record its derivative.",
     "all numbers of a wide range and all 2x2 matrices of them",
     "Tests read a few points per function.",
     [ML + "activations.rs"], [("activations", ML + "activations.rs")], ["ml"],
     note="Matrices of a fixed shape.")
prop("L02", "Regressions satisfy their optimality conditions",
     "Ordinary and ridge least squares return coefficients whose residuals are orthogonal to the features up to the penalty, through the origin when no intercept is asked for; a design that determines no fit is refused. Each lasso sweep leaves its last coordinate optimal given the others, and a converged lasso satisfies the optimality conditions in every coordinate.",
     "all samples of up to four observations and two features, executed on larger ones",
     "Tests fit one data set per method.",
     [ML + "linear_regression.rs", ML + "ridge_regression.rs", ML + "lasso.rs"], [("least squares", ML + "linear_regression.rs"), ("ridge", ML + "ridge_regression.rs"), ("lasso", ML + "lasso.rs")], ["ml"],
     note="Bounded sample sizes; the singular value decomposition and the convergence of the lasso are executed only.", level="other")
prop("L03", "Classifiers predict the majority and the more probable class",
     "Nearest-neighbour prediction is a label that no other label outvotes among the k nearest samples. A logistic fit predicts the more probable class, its scores are the misclassification rate and the mean negative log likelihood, responses other than 0 and 1 are refused, and where the two responses overlap a fit converges to a solution of the likelihood equations.",
     "all samples of up to four observations, executed on larger ones and on other metrics",
     "Tests classify one data set.",
     [ML + "k_nearest_neighbors.rs", ML + "logistic_regression.rs"], [("nearest neighbours", ML + "k_nearest_neighbors.rs"), ("logistic regression", ML + "logistic_regression.rs")], ["ml"],
     note="Bounded sample sizes; convergence of the logistic fit is executed only.", level="other")
prop("V01", "Curves answer by their current nodes and interpolation",
     "A curve returns the rate of a node exactly, between nodes what its interpolation gives to the two around it, and nothing outside them, however its nodes were given and after any shift or edit. Its brackets are the neighbouring nodes, keeping an interpolated rate changes no answer, and dates and rates of different number are refused.",
     "all curves of up to three nodes, all dates and rates, one edit",
     "The crate has no test of its curves; node order, gaps and edits combine freely.",
     ["crates/RustQuant_data/src/curves.rs"], [("curve", "crates/RustQuant_data/src/curves.rs")], ["data"],
     note="Bounded number of nodes. The particle-swarm fit of a parametric curve is random and private and is not covered.")
prop("P01", "Portfolio values and profits are those of its positions",
     "A position's value is its quantity times its current price and its profit that quantity times the change since purchase. A portfolio's value, cost and profit are the sums over its positions, by whatever names and in whatever order, and change exactly as positions are added, replaced or repriced.",
     "all quantities and prices; portfolios of up to four positions",
     "Sums over a map with arbitrary quantities and signs of the profit; tests value one small portfolio.",
     [PO + "lib.rs"], [("positions and portfolios", PO + "lib.rs")], ["portfolios"],
     note="Positions are discharged for all quantities and prices; portfolios are bounded to four positions.")
ST = "crates/RustQuant_stochastics/src/"
prop("S01", "Simulated paths take the steps of their scheme with independent normal noise",
     "A simulation returns the paths asked for on equidistant times from the initial value, every step being that of the chosen scheme (Euler-Maruyama, Milstein, Strang splitting) with a Brownian increment of the length of the step. Increments are independent between steps and paths, determined by the seed, and the same in parallel. Jumps add a compound Poisson process and fractional noise has the variance and correlation of its Hurst exponent over the span simulated.",
     "all linear coefficients, initial values, time spans and seeds; up to three steps and two paths; statistics of noise, jumps and fractional processes executed",
     "Wrong scaling of the noise or shared randomness shows only in distribution, which the tests' tolerances do not see.",
     [ST + "simulation.rs", ST + "process.rs", ST + "fractional_process.rs", ST + "merton_jump_diffusion.rs", ST + "brownian_motion.rs"],
     [("schemes", ST + "simulation.rs"), ("fractional noise", ST + "fractional_process.rs")], ["stochastics"],
     note="Bounded in steps and paths, draws being uninterpreted functions of law, seed and index; distributions of fractional noise and jumps are executed only.", level="other")
prop("S02", "Processes have the coefficients of the equation they are named after",
     "The drift and volatility of every process, at any state and time and with constant or time-dependent parameters, are those of its stochastic differential equation, and the reported parameters are the initial ones. Parameters outside their domain are refused.",
     "all states, times and parameters; parameters that are any line in time",
     "Tests only simulate and compare means within wide tolerances.",
     [ST + i + ".rs" for i in ("arithmetic_brownian_motion", "black_derman_toy", "brownian_motion", "constant_elasticity_of_variance", "cox_ingersoll_ross", "extended_vasicek", "fractional_brownian_motion", "fractional_cox_ingersoll_ross", "fractional_ornstein_uhlenbeck", "geometric_brownian_bridge", "geometric_brownian_motion", "ho_lee", "hull_white", "merton_jump_diffusion", "model_parameter", "ornstein_uhlenbeck")],
     [("coefficients", ST + "geometric_brownian_motion.rs")], ["stochastics"],
     note="Every obligation is discharged for all parameters.")
prop("S03", "Spot rates and discount factors of the yield curve model are the means of its forward rates",
     "The spot rate times the time to a date is the integral of the forward rate up to it, the discount factor is the exponential of its negative, in percent, and there are no rates of the past.",
     "all parameters and dates up to 55 years ahead",
     "The tests only evaluate the curve without comparing any value.",
     [ST + "nelson_siegel_svensson.rs", ST + "curve_model.rs"], [("forward and spot rate", ST + "nelson_siegel_svensson.rs")], ["stochastics"],
     note="Every obligation is discharged for all parameters.")
OP = "crates/RustQuant_instruments/src/options/"
prop("O03", "Finite difference prices solve the scheme they are named after",
     "The explicit, implicit and Crank-Nicolson prices are the solutions of their discretisation of the Black-Scholes equation, with boundary values consistent with it. American prices take the better of holding and exercising at every node, and prices converge to the closed form.",
     "all prices, strikes, rates, volatilities and expiries on a grid of four intervals and one or two time steps; convergence executed",
     "Errors in boundary values or coefficients vanish at the fine grids and wide tolerances of the tests.",
     [OP + "finite_difference_pricer.rs"], [("schemes", OP + "finite_difference_pricer.rs")], ["instruments"],
     note="Bounded to the smallest grid on which all parts of the scheme take part.", level="other")
prop("O04", "Least-squares Monte Carlo prices are discounted to the valuation date",
     "With a single exercise date the price is the mean of the payoffs discounted over the whole life; with more it is the price of the option exercisable at the simulated dates. The seed determines the price; invalid inputs are refused.",
     "all market data and seeds with up to three paths for a single date; more dates executed against a tree",
     "The tests' tolerances exceed the effect of a missing discount factor.",
     [OP + "longstaff_schwartz.rs"], [("pricer", OP + "longstaff_schwartz.rs")], ["instruments"],
     note="Bounded in paths; the regression is executed only.", level="other")
prop("O05", "Implied volatility inverts the price",
     "The volatility implied by a price is the one the price was computed with, for every rate and cost of carry, and discounting and growth enter only through the forward and the undiscounted price.",
     "all market data for the reduction to the normalised problem; the inversion itself executed over total volatilities of 1% to 600% and strikes up to twelve standard deviations from the forward, every region of the approximations, against an independent integral of vega",
     "Tests invert a single price; the rational approximations have many regions.",
     [OP + "implied_volatility.rs", OP + "black_scholes_merton.rs"], [("reduction", OP + "implied_volatility.rs"), ("carry", OP + "black_scholes_merton.rs")], ["instruments"],
     note="The reduction is discharged for all inputs with the inversion as an uninterpreted function; the inversion is a bounded executed check over every region of the rational approximations.", level="other")
